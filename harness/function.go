package main

import (
	"context"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"testing/iotest"

	htmltomarkdown "github.com/JohannesKaufmann/html-to-markdown/v2"
	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
	"golang.org/x/net/html"
)

type fnOp struct {
	E    string `json:"e"`
	C    int    `json:"c"`
	D    int    `json:"d"`
	Dom  string `json:"dom"`
	Ctx  string `json:"ctx"`
	K    int    `json:"k"`
	Out  string `json:"out"`
	Fin  string `json:"fin"`
	Err  string `json:"err"`
	Sent bool   `json:"sent"`
	b    []byte
	s    string
}

// the errors of a failing reader; all of them have to be passed on
var readErrs = []error{errors.New("the reader failed"), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, context.Canceled, context.DeadlineExceeded,
	os.ErrDeadlineExceeded, os.ErrNotExist, fmt.Errorf("wrapped: %w", io.EOF), html.ErrBufferExceeded, errors.ErrUnsupported}

// chunkReader delivers n bytes at a time, and if zero is set sometimes none
type chunkReader struct {
	s    string
	n    int
	zero bool
	odd  bool
	fail error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.zero {
		r.odd = !r.odd
		if r.odd {
			return 0, nil
		}
	}
	if r.s == "" {
		if r.fail != nil {
			return 0, r.fail
		}
		return 0, io.EOF
	}
	n := min(r.n, len(p), len(r.s))
	copy(p, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}

type fnKey struct{}

func (o *fnOp) run(convs map[int]*converter.Converter, doc string) error {
	var opts []converter.ConvertOptionFunc
	if o.Dom != "" {
		opts = append(opts, converter.WithDomain(o.Dom))
	}
	switch o.Ctx {
	case "value":
		opts = append(opts, converter.WithContext(context.WithValue(context.Background(), fnKey{}, "v")))
	case "cancelled":
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		opts = append(opts, converter.WithContext(ctx))
	}
	c := convs[o.C]
	if o.C == 4 {
		c = fnFresh()
	}
	read := func(r io.Reader) (err error) { o.b, err = c.ConvertReader(r, opts...); return }
	var err error
	switch o.E {
	case "string":
		o.s, err = c.ConvertString(doc, opts...)
	case "pkgstring":
		o.s, err = htmltomarkdown.ConvertString(doc, opts...)
	case "reader":
		err = read(strings.NewReader(doc))
	case "pkgreader":
		o.b, err = htmltomarkdown.ConvertReader(iotest.HalfReader(strings.NewReader(doc)), opts...)
	case "onebyte":
		err = read(iotest.OneByteReader(strings.NewReader(doc)))
	case "half":
		err = read(iotest.HalfReader(strings.NewReader(doc)))
	case "dataerr":
		err = read(iotest.DataErrReader(strings.NewReader(doc)))
	case "zero":
		err = read(&chunkReader{s: doc, n: 5, zero: true})
	case "chunk3":
		err = read(&chunkReader{s: doc, n: 3})
	case "chunk7":
		err = read(&chunkReader{s: doc, n: 7})
	case "fail":
		err = read(&chunkReader{s: doc[:o.K%(len(doc)+1)], n: 4, fail: readErrs[(o.K+len(doc))%len(readErrs)]})
	case "node", "pkgnode":
		n, e := html.Parse(strings.NewReader(doc))
		if e != nil {
			return e
		}
		if o.E == "node" {
			o.b, err = c.ConvertNode(n, opts...)
		} else {
			o.b, err = htmltomarkdown.ConvertNode(n, opts...)
		}
	}
	return err
}
func (o *fnOp) value() string {
	s := o.s + string(o.b)
	if len(s) > 1<<15 { // the output of a long document is recorded as its length and hash
		return fmt.Sprintf("%d %x", len(s), sha256.Sum256([]byte(s)))
	}
	return strconv.QuoteToASCII(s)[1:]
}

var fnRaw = strings.NewReplacer("{feff}", "\ufeff", "{ff}", "\xff", "{c3}", "\xc3", "{00}", "\x00", "{fffd}", "\ufffd", "{e2}", "\xe2", "{80}", "\x80", "{1b}", "\x1b", "{0c}", "\f")

func fnFresh() *converter.Converter {
	return converter.NewConverter(converter.WithPlugins(base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()))
}

func init() {
	modes["function"] = func(dec *json.Decoder, enc *json.Encoder) error {
		for {
			var c struct {
				ID   int      `json:"id"`
				Docs []string `json:"docs"`
				Ops  []*fnOp  `json:"ops"`
				Big  int      `json:"big"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			docs := make([]string, len(c.Docs))
			for i, d := range c.Docs {
				docs[i] = fnRaw.Replace(d)
				if c.Big > 0 {
					docs[i] = "<p>start</p>" + strings.Repeat("<p>filler *text*</p> ", c.Big*(i+1)*1024/63) + docs[i] + "<p>end</p>"
				}
			}
			b, cm := base.NewBasePlugin(), commonmark.NewCommonmarkPlugin()
			convs := map[int]*converter.Converter{
				1: converter.NewConverter(converter.WithPlugins(b, cm)),
				2: converter.NewConverter(converter.WithPlugins(b, cm)), // the same plugins again
				5: converter.NewConverter(converter.WithPlugins(b, commonmark.NewCommonmarkPlugin(commonmark.WithEmDelimiter("x")))),
				6: converter.NewConverter(converter.WithPlugins(b, cm)),
				3: converter.NewConverter(converter.WithPlugins(b, cm, strikethrough.NewStrikethroughPlugin(), table.NewTablePlugin())),
			}
			convs[6].Register.PostRenderer(func(_ converter.Context, content []byte) []byte {
				return append(content, "[end]"...)
			}, converter.PriorityLate)
			for _, o := range c.Ops {
				_, o.Err = protect(func() (string, error) {
					err := o.run(convs, docs[o.D-1])
					o.Sent = errors.Is(err, readErrs[(o.K+len(docs[o.D-1]))%len(readErrs)])
					return "", err
				})
				o.Out = o.value()
				if o.Out == `"` {
					o.Out = ""
				}
			}
			for _, o := range c.Ops {
				if o.Fin = o.value(); o.Fin == `"` {
					o.Fin = ""
				}
			}
			if err := enc.Encode(map[string]any{"id": c.ID, "docs": c.Docs, "ops": c.Ops}); err != nil {
				return err
			}
		}
	}
}
