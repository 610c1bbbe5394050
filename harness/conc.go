package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/JohannesKaufmann/dom"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

// Several threads convert with, and register on, the same converter.
//
// An effect is one registration; a lookup is one moment at which a conversion
// looked at the registrations of one kind. Both are recorded with a tick of a
// shared clock before and after. In a history with a schedule only one thread
// runs at a time, and the threads change at the gates; without a schedule they
// run freely. Without "log" nothing is recorded, so that the clock does not
// order what the converter itself does not order (for the race detector).

type ccOp struct {
	K    string `json:"k"` // "conv", "reg"
	D    int    `json:"d"`
	Dom  string `json:"dom"`
	Kind string `json:"kind"` // of the registration: pre, ren, text, post, type, for, chars, une, plugin, fail
	Pri  int    `json:"pri"`
}

type ccEffect struct {
	ID   int    `json:"id"`
	Kind string `json:"kind"`
	Pri  int    `json:"pri"`
	Call int64  `json:"call"`
	Ret  int64  `json:"ret"`
}

type ccLookup struct {
	Kind  string `json:"kind"`
	Q     int    `json:"q"` // the only effect that the lookup is about, or 0
	Begin int64  `json:"begin"`
	End   int64  `json:"end"`
	Res   []int  `json:"res"`
}

type ccConv struct {
	Th    int        `json:"th"`
	Out   []string   `json:"out"`
	Solo  []string   `json:"solo"`
	Err   string     `json:"err"`
	Vals  []int      `json:"vals"` // of a counter in the state of the conversion
	Dom   string     `json:"dom"`
	Doms  []string   `json:"doms"` // what the handlers see
	Looks []ccLookup `json:"-"`
	fail  bool       // with the error of the plugin that fails
}

type ccThread struct {
	h     *ccHist
	id    int
	n     int
	turn  chan bool
	convs []*ccConv
	effs  []ccEffect
}

type ccHist struct {
	conv  *converter.Converter
	log   bool
	sched bool
	clock atomic.Int64
	yield chan int
	docs  []string
	begun atomic.Bool  // there is at most one plugin that fails,
	bad   atomic.Int64 // and this is its id
	known sync.Map     // ids whose registration has begun, for the lookups about one of them
}

// ccRun is a conversion that is under way
type ccRun struct {
	t    *ccThread
	c    *ccConv
	last int64
	node *html.Node
	kind string
	deep int
}
type ccKey struct{}

func ccRunOf(ctx context.Context) *ccRun {
	r, _ := ctx.Value(ccKey{}).(*ccRun)
	return r
}

func (h *ccHist) tick() int64 {
	if !h.log {
		return 0
	}
	return h.clock.Add(1)
}

// a gate: other threads may go on here
func (t *ccThread) gate() {
	if t.h.sched {
		t.h.yield <- t.id
		<-t.turn
	}
}

// see is called by an observer that was registered with the given id (0: the first one)
func (r *ccRun) see(kind string, n *html.Node, id int) {
	if r == nil || r.c == nil || !r.t.h.log {
		return
	}
	if id == 0 {
		now := r.t.h.tick()
		r.c.Looks = append(r.c.Looks, ccLookup{Kind: kind, Begin: r.last, End: now, Res: []int{}})
		r.last, r.node, r.kind = now, n, kind
		return
	}
	k := len(r.c.Looks) - 1
	if k < 0 || r.kind != kind || r.node != n {
		r.c.Looks = append(r.c.Looks, ccLookup{Kind: "bad:" + kind, Begin: r.last, End: r.last + 1, Res: []int{id}})
		return
	}
	r.c.Looks[k].Res = append(r.c.Looks[k].Res, id)
	r.last = r.t.h.tick()
}

const firstPri = -1 << 30

func ccObserver(kind string, id int) any {
	switch kind {
	case "pre":
		return converter.HandlePreRenderFunc(func(ctx converter.Context, doc *html.Node) { ccRunOf(ctx).see("pre", nil, id) })
	case "post":
		return converter.HandlePostRenderFunc(func(ctx converter.Context, b []byte) []byte {
			ccRunOf(ctx).see("post", nil, id)
			return b
		})
	case "text":
		return converter.HandleTextTransformFunc(func(ctx converter.Context, s string) string {
			ccRunOf(ctx).see("text", nil, id)
			return s
		})
	default:
		return converter.HandleRenderFunc(func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
			ccRunOf(ctx).see("ren", n, id)
			return converter.RenderTryNext
		})
	}
}

func (t *ccThread) effect(kind string, pri int, f func(id int)) {
	t.n++
	e := ccEffect{ID: t.id*1000 + t.n, Kind: kind, Pri: pri, Call: t.h.tick()}
	f(e.ID)
	e.Ret = t.h.tick()
	if t.h.log {
		t.effs = append(t.effs, e)
	}
}

func ccTag(id int) string { return "x-t" + strconv.Itoa(id) }
func ccChar(id int) rune  { return rune(0xE000 + id) } // at most 0xE000 + 4999
func (t *ccThread) register(kind string, pri int) {
	reg := &t.h.conv.Register
	switch kind {
	case "pre":
		t.effect(kind, pri, func(id int) { reg.PreRenderer(ccObserver(kind, id).(converter.HandlePreRenderFunc), pri) })
	case "post":
		t.effect(kind, pri, func(id int) { reg.PostRenderer(ccObserver(kind, id).(converter.HandlePostRenderFunc), pri) })
	case "text":
		t.effect(kind, pri, func(id int) { reg.TextTransformer(ccObserver(kind, id).(converter.HandleTextTransformFunc), pri) })
	case "ren":
		t.effect(kind, pri, func(id int) { reg.Renderer(ccObserver(kind, id).(converter.HandleRenderFunc), pri) })
	case "type":
		t.effect(kind, pri, func(id int) {
			if t.h.log {
				t.h.known.Store(id, kind)
			}
			reg.TagType(ccTag(id), converter.TagTypeRemove, pri)
		})
	case "chars":
		t.effect(kind, pri, func(id int) {
			if t.h.log {
				t.h.known.Store(id, kind)
			}
			reg.EscapedChar(ccChar(id))
		})
	case "for": // the renderer sees only its own elements, but the type is visible
		t.effect("type", pri, func(id int) {
			if t.h.log {
				t.h.known.Store(id, "type")
			}
			reg.RendererFor(ccTag(id), converter.TagTypeBlock, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
				return converter.RenderTryNext
			}, pri)
		})
	case "une":
		reg.UnEscaper(func(chars []byte, index int) int { return -1 }, pri)
	case "plugin":
		reg.Plugin(&ccPlugin{t, pri})
	case "fail": // all conversions that begin afterwards fail
		if t.h.begun.CompareAndSwap(false, true) {
			t.effect("fail", 0, func(id int) {
				t.h.bad.Store(int64(id))
				reg.Plugin(ccFailing{})
			})
		}
	}
}

type ccPlugin struct {
	t   *ccThread
	pri int
}

func (p *ccPlugin) Name() string { return fmt.Sprint("p", p.t.id, p.t.n) }
func (p *ccPlugin) Init(conv *converter.Converter) error {
	p.t.register("ren", p.pri)
	p.t.register("type", p.pri)
	p.t.register("text", p.pri+1)
	return nil
}

type ccFailing struct{}

var errCC = errors.New("the plugin fails")

func (ccFailing) Name() string                    { return "failing" }
func (ccFailing) Init(*converter.Converter) error { return errCC }

func (r *ccRun) atGate(ctx converter.Context, act string) {
	h := r.t.h
	r.t.gate()
	if r.c == nil {
		return
	}
	converter.UpdateState(ctx, "n", func(i int) int { return i + 1 })
	r.c.Vals = append(r.c.Vals, converter.GetState[int](ctx, "n"))
	r.c.Doms = append(r.c.Doms, converter.GetDomain(ctx))
	switch {
	case act == "conv" && r.deep < 2:
		r.t.convert(h.docs[0], "https://inner.org", r.deep+1)
	case act != "" && act != "conv" && r.t.n < 40:
		r.t.register(act, -3-r.t.n)
	}
	if h.log {
		// the kinds without handlers
		h.known.Range(func(k, v any) bool {
			l := ccLookup{Kind: v.(string), Q: k.(int), Begin: h.tick(), Res: []int{}}
			found := false
			if l.Kind == "type" {
				_, found = ctx.GetTagType(ccTag(l.Q))
			} else {
				found = string(ctx.EscapeContent([]byte(string(ccChar(l.Q))))) != string(ccChar(l.Q))
			}
			l.End = h.tick()
			if found {
				l.Res = append(l.Res, l.Q)
			}
			r.c.Looks = append(r.c.Looks, l)
			return true
		})
		r.last = h.tick()
	}
	r.t.gate()
}

func ccNew() *converter.Converter {
	c := converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(), strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin()))
	c.Register.RendererFor("x-gate", converter.TagTypeInline, func(ctx converter.Context, w converter.Writer, n *html.Node) converter.RenderStatus {
		if r := ccRunOf(ctx); r != nil {
			r.atGate(ctx, dom.GetAttributeOr(n, "act", ""))
		}
		w.WriteString("g")
		return converter.RenderSuccess
	}, converter.PriorityEarly)
	return c
}

func (t *ccThread) convert(doc string, dm string, deep int) {
	c := &ccConv{Th: t.id, Dom: dm, Vals: []int{}, Doms: []string{}, Looks: []ccLookup{}}
	t.convs = append(t.convs, c)
	begin := t.h.tick()
	r := &ccRun{t: t, c: c, last: begin, deep: deep}
	out, err := t.h.conv.ConvertString(doc, converter.WithContext(context.WithValue(context.Background(), ccKey{}, r)), converter.WithDomain(dm))
	if c.fail = errors.Is(err, errCC); !c.fail && err != nil {
		c.Err = err.Error()
	}
	if id := int(t.h.bad.Load()); id != 0 && t.h.log {
		l := ccLookup{Kind: "fail", Q: id, Begin: begin, End: t.h.tick(), Res: []int{}}
		if c.fail {
			l.Res = append(l.Res, id)
		} else if len(c.Looks) > 0 && c.Looks[0].Kind == "pre" {
			l.End = c.Looks[0].End
		}
		c.Looks = append(c.Looks, l)
	}
	c.Out, c.Solo = []string{out}, []string{doc}
}

func ccHistory(docs []string, progs [][]ccOp, sched []int, log bool) ([]*ccConv, []ccEffect) {
	h := &ccHist{conv: ccNew(), log: log, sched: len(sched) > 0, yield: make(chan int), docs: docs}
	h.conv.Register.PreRenderer(ccObserver("pre", 0).(converter.HandlePreRenderFunc), firstPri)
	h.conv.Register.Renderer(ccObserver("ren", 0).(converter.HandleRenderFunc), firstPri)
	h.conv.Register.TextTransformer(ccObserver("text", 0).(converter.HandleTextTransformFunc), firstPri)
	h.conv.Register.PostRenderer(ccObserver("post", 0).(converter.HandlePostRenderFunc), firstPri)
	var ths []*ccThread
	var wg sync.WaitGroup
	start, bad := make(chan bool), make(chan any, len(progs))
	for i, p := range progs {
		t := &ccThread{h: h, id: i + 1, turn: make(chan bool)}
		ths = append(ths, t)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					bad <- x
				}
				if h.sched {
					h.yield <- -t.id
				}
			}()
			<-start
			if h.sched {
				<-t.turn
			}
			for _, o := range p {
				if o.K == "conv" {
					t.convert(docs[o.D-1], o.Dom, 0)
				} else {
					t.register(o.Kind, o.Pri)
				}
				t.gate()
			}
		}()
	}
	close(start)
	if h.sched {
		alive := map[int]bool{}
		for _, t := range ths {
			alive[t.id] = true
		}
		for k := 0; len(alive) > 0; k++ {
			id := sched[k%len(sched)]
			if !alive[id] {
				ids := []int{}
				for i := range alive {
					ids = append(ids, i)
				}
				sort.Ints(ids)
				id = ids[k%len(ids)]
			}
			ths[id-1].turn <- true
			if y := <-h.yield; y < 0 {
				delete(alive, -y)
			}
		}
	}
	wg.Wait()
	select {
	case x := <-bad:
		panic(x)
	default:
	}
	var cs []*ccConv
	var es []ccEffect
	for _, t := range ths {
		cs = append(cs, t.convs...)
		es = append(es, t.effs...)
	}
	return cs, es
}

// ccEvent is the begin or the end of a lookup or of a registration
type ccEvent struct {
	E    string `json:"e"` // "end", "ret", "begin", "call"
	X    int    `json:"x"` // number of the lookup, or id of the effect
	Kind string `json:"kind"`
	Q    int    `json:"q"`
	Pri  int    `json:"pri"`
	Res  []int  `json:"res"`
	t    int64
	o    int
}

// ccEvents orders all of them by the clock; what ends at a tick comes before
// what begins at it
func ccEvents(cs []*ccConv, es []ccEffect) []ccEvent {
	o := []ccEvent{}
	for _, e := range es {
		o = append(o, ccEvent{"call", e.ID, e.Kind, 0, e.Pri, []int{}, e.Call, 1}, ccEvent{"ret", e.ID, e.Kind, 0, e.Pri, []int{}, e.Ret, 0})
	}
	n := 0
	for _, c := range cs {
		for _, l := range c.Looks {
			n++
			o = append(o, ccEvent{"begin", n, l.Kind, l.Q, 0, l.Res, l.Begin, 1}, ccEvent{"end", n, l.Kind, l.Q, 0, l.Res, l.End, 0})
		}
	}
	sort.SliceStable(o, func(i, j int) bool {
		if o[i].t != o[j].t {
			return o[i].t < o[j].t
		}
		return o[i].o < o[j].o
	})
	return o
}

func init() {
	modes["conc"] = func(dec *json.Decoder, enc *json.Encoder) error {
		type key struct{ doc, dom string }
		for {
			var c struct {
				ID    int      `json:"id"`
				Docs  []string `json:"docs"`
				Progs [][]ccOp `json:"progs"`
				Sched []int    `json:"sched"`
				Log   bool     `json:"log"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			convs, effs, events := []*ccConv{}, []ccEffect{}, []ccEvent{}
			_, e := protect(func() (string, error) {
				cs, es := ccHistory(c.Docs, c.Progs, c.Sched, c.Log)
				memo := map[key]string{}
				for _, v := range cs {
					k := key{v.Solo[0], v.Dom}
					if _, ok := memo[k]; !ok && !v.fail {
						out, err := ccNew().ConvertString(k.doc, converter.WithDomain(k.dom))
						if err != nil {
							return "", err
						}
						memo[k] = out
					}
					solo := memo[k]
					if v.fail { // there is no output
						solo = ""
					}
					v.Out, v.Solo = lines2(v.Out[0]), lines2(solo)
				}
				convs, effs, events = append(convs, cs...), append(effs, es...), ccEvents(cs, es)
				return "", nil
			})
			if err := enc.Encode(map[string]any{"id": c.ID, "docs": c.Docs, "progs": c.Progs, "sched": c.Sched, "log": c.Log, "convs": convs, "effs": effs, "events": events, "err": e}); err != nil {
				return err
			}
		}
	}
}

// lines2 quotes every line, so that any character can be compared
func lines2(s string) []string {
	o := strings.Split(s, "\n")
	for i := range o {
		o[i] = strconv.QuoteToASCII(o[i])
	}
	return o
}
