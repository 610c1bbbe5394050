package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"strconv"

	"github.com/JohannesKaufmann/dom"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"golang.org/x/net/html"
)

type regTok struct {
	K string   `json:"k"`
	E string   `json:"e"`
	S []string `json:"s"`
	N int      `json:"n"`
}
type regEvent struct {
	K   string   `json:"k"`
	ID  int      `json:"id"`
	N   int      `json:"n"`
	Ty  string   `json:"ty"`
	St  string   `json:"st"`
	Val string   `json:"val"`
	Dom string   `json:"dom"`
	Usr string   `json:"usr"`
	S   []string `json:"s"`
	J   int      `json:"j"`
}

// one operation; the fields that its kind does not have stay raw
type regOp struct {
	Op   string   `json:"op"`
	C    int      `json:"c"`
	ID   int      `json:"id"`
	Pri  int      `json:"pri"`
	Act  string   `json:"act"`
	Tag  string   `json:"tag"`
	Ty   string   `json:"ty"`
	Ch   string   `json:"ch"`
	Ret  int      `json:"ret"`
	Chs  []string `json:"chs"`
	Name string   `json:"name"`
	Fail bool     `json:"fail"`
	Sub  []regOp  `json:"sub"`
	Opts []regOp  `json:"opts"`
	V    string   `json:"v"`
	Doc  []regTok `json:"doc"`
	Dom  string   `json:"dom"`
	Usr  string   `json:"usr"`
	Canc bool     `json:"canc"`
}

type regErr int

func (e regErr) Error() string { return fmt.Sprint("failure ", int(e)) }

type regUsrKey struct{}

// regRun is the state of one history
type regRun struct {
	convs map[int]*converter.Converter
	ev    []regEvent
	num   map[*html.Node]int
	mute  bool // a text handler may return nothing
}

func (r *regRun) log(ctx converter.Context, k string, id int, n *html.Node, s []string) {
	e := regEvent{K: k, ID: id, N: -1, S: s, J: 0}
	if s == nil {
		e.S = []string{}
	}
	if n != nil {
		e.N = -2
		if x, ok := r.num[n]; ok {
			e.N = x
		}
		t, _ := ctx.GetTagType(dom.NodeName(n))
		e.Ty = string(t)
	}
	e.St = converter.GetState[string](ctx, "k")
	if v, ok := ctx.Value("v").(string); ok {
		e.Val = v
	}
	e.Dom = converter.GetDomain(ctx)
	if v, ok := ctx.Value(regUsrKey{}).(string); ok {
		e.Usr = v
	}
	r.ev = append(r.ev, e)
}
func (r *regRun) state(ctx converter.Context, o regOp) {
	switch o.Act {
	case "state":
		converter.SetState[string](ctx, "k", strconv.Itoa(o.ID))
	case "upd", "nest":
		converter.UpdateState[string](ctx, "k", func(s string) string { return s + strconv.Itoa(o.ID) })
	}
}

func (r *regRun) renderer(o regOp) converter.HandleRenderFunc {
	return func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		r.log(ctx, "ren", o.ID, n, nil)
		r.state(ctx, o)
		id := strconv.Itoa(o.ID)
		switch o.Act {
		case "nest":
			w.WriteString("c" + id)
			w.Write(nested(ctx))
		case "wnext":
			w.WriteString("n" + id)
		case "own":
			w.WriteString("o" + id)
			return converter.RenderSuccess
		case "kids":
			w.WriteString("(" + id)
			ctx.RenderChildNodes(ctx, w, n)
			w.WriteString(")")
			return converter.RenderSuccess
		case "ctx":
			w.WriteString("{" + id)
			ctx.RenderChildNodes(ctx.WithValue("v", id), w, n)
			w.WriteString("}")
			return converter.RenderSuccess
		case "twice":
			w.WriteString("[")
			ctx.RenderChildNodes(ctx, w, n)
			w.WriteString("/")
			ctx.RenderNodes(ctx, w, dom.AllChildNodes(n)...)
			w.WriteString("]")
			return converter.RenderSuccess
		case "html":
			return base.RenderAsHTML(ctx, w, n)
		case "wrap":
			return base.RenderAsHTMLWrapper(ctx, w, n)
		case "plain":
			return base.RenderAsPlaintextWrapper(ctx, w, n)
		case "panic":
			if v, _ := ctx.Value(regUsrKey{}).(string); v == "boom" {
				panic("boom")
			}
		}
		return converter.RenderTryNext
	}
}

// nested runs another conversion, which gets the context of the outer one
func nested(ctx converter.Context) []byte {
	conv := converter.NewConverter()
	conv.Register.Renderer(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		converter.UpdateState[string](ctx, "k", func(s string) string { return s + "i" })
		w.WriteString(converter.GetState[string](ctx, "k") + ";" + converter.GetDomain(ctx))
		return converter.RenderSuccess
	}, converter.PriorityStandard)
	out, err := conv.ConvertNode(&html.Node{Type: html.ElementNode, Data: "b"}, converter.WithContext(ctx))
	if err != nil {
		return []byte(err.Error())
	}
	return out
}

type regPlugin struct {
	r *regRun
	o regOp
}

func (p regPlugin) Name() string { return p.o.Name }
func (p regPlugin) Init(conv *converter.Converter) error {
	for _, s := range p.o.Sub {
		p.r.register(conv, s)
	}
	if p.o.Fail {
		return regErr(p.o.ID)
	}
	return nil
}
func (r *regRun) plugin(o regOp) converter.Plugin {
	if o.Name == "base" {
		return base.NewBasePlugin()
	}
	return regPlugin{r, o}
}

func (r *regRun) register(conv *converter.Converter, o regOp) {
	id := strconv.Itoa(o.ID)
	switch o.Op {
	case "pre":
		conv.Register.PreRenderer(func(ctx converter.Context, doc *html.Node) {
			r.log(ctx, "pre", o.ID, nil, nil)
			r.state(ctx, o)
			if o.Act == "text" {
				doc.AppendChild(&html.Node{Type: html.TextNode, Data: id})
			}
		}, o.Pri)
	case "ren":
		conv.Register.Renderer(r.renderer(o), o.Pri)
	case "for":
		t := converter.TagTypeInline
		if o.Ty == "block" {
			t = converter.TagTypeBlock
		}
		conv.Register.RendererFor(o.Tag, t, r.renderer(o), o.Pri)
	case "type":
		t := converter.TagTypeInline
		if o.Ty == "block" {
			t = converter.TagTypeBlock
		} else if o.Ty == "remove" {
			t = converter.TagTypeRemove
		}
		conv.Register.TagType(o.Tag, t, o.Pri)
	case "text":
		r.mute = r.mute || o.Act == "empty"
		conv.Register.TextTransformer(func(ctx converter.Context, s string) string {
			if s == "" && !r.mute { // what is left of whitespace that was collapsed; it is not there for a reader
				return s
			}
			r.log(ctx, "text", o.ID, nil, chars(s))
			r.state(ctx, o)
			if o.Act == "empty" {
				return ""
			}
			if o.Act == "esc" {
				return string(ctx.EscapeContent([]byte(s)))
			}
			return s + "t" + id
		}, o.Pri)
	case "post":
		conv.Register.PostRenderer(func(ctx converter.Context, s []byte) []byte {
			r.log(ctx, "post", o.ID, nil, chars(string(s)))
			r.state(ctx, o)
			if o.Act == "empty" {
				return nil
			}
			if o.Act == "une" {
				s = ctx.UnEscapeContent(s)
			}
			return append([]byte("p"+id+":"), s...)
		}, o.Pri)
	case "une":
		conv.Register.UnEscaper(func(b []byte, index int) int {
			r.ev = append(r.ev, regEvent{K: "une", ID: o.ID, N: -1, J: index, S: []string{}})
			if string(b[index]) == o.Ch {
				return o.Ret
			}
			return -1
		}, o.Pri)
	case "chars":
		var rs []rune
		for _, c := range o.Chs {
			rs = append(rs, []rune(c)...)
		}
		conv.Register.EscapedChar(rs...)
	case "plugin":
		conv.Register.Plugin(r.plugin(o))
	}
}

func (r *regRun) create(o regOp) *converter.Converter {
	var opts []func(c *converter.Converter) error
	for _, x := range o.Opts {
		switch x.Op {
		case "mode":
			if x.V == "disabled" {
				opts = append(opts, converter.WithEscapeMode(converter.EscapeModeDisabled))
			} else {
				opts = append(opts, converter.WithEscapeMode(converter.EscapeModeSmart))
			}
		case "plugin":
			opts = append(opts, converter.WithPlugins(r.plugin(x)))
		case "err":
			opts = append(opts, func(c *converter.Converter) error { return regErr(x.ID) })
		}
	}
	return converter.NewConverter(opts...)
}

func (r *regRun) tree(toks []regTok) *html.Node {
	root := &html.Node{Type: html.DocumentNode}
	r.num = map[*html.Node]int{root: 0}
	cur := root
	for _, t := range toks {
		var n *html.Node
		switch t.K {
		case "o", "v":
			n = &html.Node{Type: html.ElementNode, Data: t.E}
		case "c":
			cur = cur.Parent
			continue
		case "t":
			n = &html.Node{Type: html.TextNode, Data: str(t.S)}
		case "m":
			n = &html.Node{Type: html.CommentNode, Data: " hidden "}
		}
		r.num[n] = t.N
		cur.AppendChild(n)
		if t.K == "o" {
			cur = n
		}
	}
	return root
}

// the results are kept as they are and looked at when the history is over:
// no later conversion may change them
func (r *regRun) convert(o regOp) (out []byte, e string, is []int) {
	r.ev = []regEvent{}
	is = []int{}
	defer func() {
		if p := recover(); p != nil {
			out, e = nil, "PANIC"
			if p != "boom" {
				e = fmt.Sprint("panic: ", p)
			}
		}
	}()
	var opts []converter.ConvertOptionFunc
	if o.Dom != "" {
		opts = append(opts, converter.WithDomain(o.Dom))
	}
	if o.Usr != "" {
		ctx := context.WithValue(context.Background(), regUsrKey{}, o.Usr)
		if o.Canc {
			c2, cancel := context.WithCancel(ctx)
			cancel()
			ctx = c2
		}
		opts = append(opts, converter.WithContext(ctx))
	}
	b, err := r.convs[o.C].ConvertNode(r.tree(o.Doc), opts...)
	if err != nil {
		for id := 0; id < 400; id++ {
			if errors.Is(err, regErr(id)) {
				is = append(is, id)
			}
		}
		return b, "error: " + err.Error(), is
	}
	return b, "", is
}

func init() {
	modes["registry"] = func(dec *json.Decoder, enc *json.Encoder) error {
		for {
			var c struct {
				ID  int               `json:"id"`
				Ops []json.RawMessage `json:"ops"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			r := &regRun{convs: map[int]*converter.Converter{}}
			res := []map[string]any{}
			crash := ""
			outs := map[int][]byte{}
			for _, raw := range c.Ops {
				var o regOp
				m := map[string]any{}
				if err := json.Unmarshal(raw, &o); err != nil {
					return err
				}
				if err := json.Unmarshal(raw, &m); err != nil {
					return err
				}
				if o.Op == "conv" {
					m["out"], m["err"], m["is"], m["ev"] = []string{}, "HANG", []int{}, []regEvent{}
				}
				ok := make(chan struct{})
				_, e := protect(func() (string, error) {
					defer close(ok)
					switch o.Op {
					case "new":
						r.convs[o.C] = r.create(o)
					case "conv":
						out, e, is := r.convert(o)
						m = map[string]any{"op": "conv", "err": e, "is": is, "ev": r.ev}
						outs[len(res)] = out
						return "", json.Unmarshal(raw, &m)
					default:
						r.register(r.convs[o.C], o)
					}
					return "", nil
				})
				if e != "" {
					crash = e
					break
				}
				<-ok
				res = append(res, m)
			}
			for k, b := range outs {
				if k < len(res) {
					res[k]["out"] = chars(string(b))
				}
			}
			if err := enc.Encode(map[string]any{"id": c.ID, "ops": res, "crash": crash}); err != nil {
				return err
			}
		}
	}
}
