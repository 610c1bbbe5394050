package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"
)

// Runs the command line tool (the binary $CLI_BIN). It runs as an unprivileged
// user inside of a directory that is made for it.

const nobody = 65534

type cliEnv struct {
	root string
	bin  string
	priv bool // cannot change the user
}

func newCliEnv() (*cliEnv, error) {
	root, err := os.MkdirTemp("", "verif-cli-")
	if err != nil {
		return nil, err
	}
	e := &cliEnv{root: root, bin: filepath.Join(root, "html2markdown")}
	os.Chmod(root, 0755)
	b, err := os.ReadFile(os.Getenv("CLI_BIN"))
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(e.bin, b, 0755); err != nil {
		return nil, err
	}
	os.Chmod(e.bin, 0755)
	if os.Chown(root, 0, 0) != nil {
		e.priv = true
	} else if cmd := e.cmd(context.Background(), root, "--version"); cmd.Run() != nil {
		e.priv = true
	}
	return e, nil
}

func (e *cliEnv) cmd(ctx context.Context, dir string, args ...string) *exec.Cmd {
	cmd := exec.CommandContext(ctx, e.bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "TERM=dumb", "LC_ALL=C.UTF-8"}
	if !e.priv {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
	}
	return cmd
}

type cliResult struct {
	exit           int
	stdout, stderr string
}

// run: stdin nil means that there is none (a character device)
// asFile: standard input is a regular file, not a pipe
func (e *cliEnv) run(dir string, stdin *string, full bool, args ...string) cliResult {
	return e.runFrom(dir, stdin, false, full, args...)
}

func (e *cliEnv) runFrom(dir string, stdin *string, asFile, full bool, args ...string) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := e.cmd(ctx, dir, args...)
	if stdin != nil {
		cmd.Stdin = strings.NewReader(*stdin)
		if asFile {
			f, err := os.CreateTemp(e.root, "stdin")
			if err != nil {
				panic(err)
			}
			defer os.Remove(f.Name())
			defer f.Close()
			f.WriteString(*stdin)
			f.Seek(0, 0)
			cmd.Stdin = f
		}
	}
	var o, s bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &s
	if full {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	r := cliResult{stdout: o.String(), stderr: s.String()}
	if ctx.Err() != nil {
		r.exit = 999
	} else if x, ok := err.(*exec.ExitError); ok {
		r.exit = x.ExitCode()
		if !x.Exited() {
			r.exit = 998
		}
	} else if err != nil {
		panic(err)
	}
	return r
}

type fsEntry struct {
	P []string `json:"p"`
	K string   `json:"k"`
	C string   `json:"c"`
}

func (e *cliEnv) snapshot(dir string) []fsEntry {
	es := []fsEntry{}
	filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if path == dir || err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, path)
		en := fsEntry{P: strings.Split(rel, "/"), K: "file"}
		switch {
		case d.IsDir():
			en.K = "dir"
		case d.Type()&fs.ModeSymlink != 0:
			en.K = "link"
		default:
			b, _ := os.ReadFile(path)
			en.C = string(b)
			if i, err := d.Info(); err == nil && i.Mode().Perm() == 0 {
				en.K = "secret"
			}
		}
		es = append(es, en)
		return nil
	})
	sort.Slice(es, func(i, j int) bool { return strings.Join(es[i].P, "/") < strings.Join(es[j].P, "/") })
	return es
}

func init() {
	modes["fs"] = func(dec *json.Decoder, enc *json.Encoder) error {
		e, err := newCliEnv()
		if err != nil {
			return err
		}
		defer os.RemoveAll(e.root)
		for {
			var c struct {
				ID int `json:"id"`
				Fs []struct {
					P string `json:"p"`
					K string `json:"k"`
					C string `json:"c"`
					W int    `json:"w"`
				} `json:"fs"`
				Runs []struct {
					Input  string `json:"input"`
					Output string `json:"output"`
					Over   bool   `json:"over"`
					Stdin  string `json:"stdin"`
					Eq     bool   `json:"eq"`
				} `json:"runs"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			dir := filepath.Join(e.root, fmt.Sprint(c.ID))
			w := filepath.Join(dir, "w")
			own := func(p string) { os.Lchown(p, nobody, nobody) }
			if err := os.MkdirAll(w, 0755); err != nil {
				return err
			}
			os.Mkdir(filepath.Join(dir, "outside"), 0755)
			own(filepath.Join(dir, "outside"))
			own(dir)
			own(w)
			for _, f := range c.Fs {
				p := filepath.Join(w, f.P)
				for d := w; ; {
					rel, _ := filepath.Rel(d, filepath.Dir(p))
					if rel == "." {
						break
					}
					d = filepath.Join(d, strings.Split(rel, "/")[0])
					os.Mkdir(d, 0755)
					own(d)
				}
				word := fmt.Sprintf("w%d", f.W)
				content := map[string]string{"html": "<p>" + word + "</p>", "md": word, "empty": "", "blank": "<p> </p>", "long": "<p>" + word + strings.Repeat("x", 300) + "</p>"}[f.C]
				switch {
				case f.K == "dir":
					err = os.Mkdir(p, 0755)
				case f.K == "link":
					err = os.Symlink(filepath.Join(dir, "outside", "target"), p)
				case f.K == "dirlink": // to a folder with a page in it
					sub := filepath.Join(dir, "outside", "sub")
					os.Mkdir(sub, 0755)
					own(sub)
					for _, n := range []string{"a.html", "y.html", "z.htm"} {
						os.WriteFile(filepath.Join(sub, n), []byte("<p>far</p>"), 0644)
						own(filepath.Join(sub, n))
					}
					err = os.Symlink(sub, p)
				case f.K == "secret" && !e.priv:
					if err = os.WriteFile(p, []byte(content), 0600); err == nil {
						err = os.Chmod(p, 0)
					}
				default:
					err = os.WriteFile(p, []byte(content), 0644)
				}
				if err != nil {
					return err
				}
				own(p)
			}
			before := e.snapshot(dir)
			steps := []map[string]any{}
			for k, r := range c.Runs {
				var args []string
				add := func(name, val string) {
					val = strings.ReplaceAll(val, "{W}", w)
					if val == "" {
						return
					}
					if r.Eq {
						args = append(args, "--"+name+"="+val)
					} else {
						args = append(args, "--"+name, val)
					}
				}
				add("input", r.Input)
				add("output", r.Output)
				if r.Over {
					args = append(args, "--output-overwrite")
				}
				var stdin *string
				in := map[string]any{"k": r.Stdin, "c": ""}
				if r.Stdin != "none" {
					s := ""
					if r.Stdin == "html" {
						s = fmt.Sprintf("<p>s%d</p>", k)
					}
					stdin = &s
					in["c"] = s
				}
				res := e.run(w, stdin, false, args...)
				steps = append(steps, map[string]any{
					"run":  map[string]any{"input": r.Input, "output": r.Output, "over": r.Over, "stdin": in},
					"exit": res.exit, "stdout": res.stdout, "stderr": res.stderr, "fs": e.snapshot(dir),
				})
			}
			os.RemoveAll(dir)
			if err := enc.Encode(map[string]any{"id": c.ID, "fs": before, "steps": steps, "priv": e.priv}); err != nil {
				return err
			}
		}
	}
}

var reWord = regexp.MustCompile(`w\d+`)

func init() {
	modes["sel"] = func(dec *json.Decoder, enc *json.Encoder) error {
		e, err := newCliEnv()
		if err != nil {
			return err
		}
		defer os.RemoveAll(e.root)
		for {
			var c struct {
				ID   int             `json:"id"`
				HTML string          `json:"html"`
				Rest string          `json:"rest"`
				Args []string        `json:"args"`
				D    json.RawMessage `json:"d"`
				Inc  json.RawMessage `json:"inc"`
				Exc  json.RawMessage `json:"exc"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			got := e.run(e.root, &c.HTML, false, c.Args...)
			ref := e.run(e.root, &c.Rest, false)
			words := reWord.FindAllString(got.stdout, -1)
			if words == nil {
				words = []string{}
			}
			if err := enc.Encode(map[string]any{"id": c.ID, "d": c.D, "inc": c.Inc, "exc": c.Exc, "exit": got.exit, "out": got.stdout, "rexit": ref.exit, "ref": ref.stdout, "words": words}); err != nil {
				return err
			}
		}
	}
}

var big = "<p>" + strings.Repeat("word of a long text, ", 10000) + "</p><p>end</p>"

// flags: the tool with its arguments, and the library with the options these stand for
func init() {
	modes["flags"] = func(dec *json.Decoder, enc *json.Encoder) error {
		e, err := newCliEnv()
		if err != nil {
			return err
		}
		defer os.RemoveAll(e.root)
		for {
			var c struct {
				ID    int               `json:"id"`
				Args  []string          `json:"args"`
				Stdin string            `json:"stdin"`
				Full  bool              `json:"full"`
				HTML  string            `json:"html"`
				Rest  string            `json:"rest"`
				B     map[string]bool   `json:"b"`
				T     map[string]string `json:"t"`
				K     string            `json:"k"`
			}
			if err := dec.Decode(&c); err == io.EOF {
				return nil
			} else if err != nil {
				return err
			}
			c.HTML, c.Rest = strings.ReplaceAll(c.HTML, "{BIG}", big), strings.ReplaceAll(c.Rest, "{BIG}", big)
			dir := filepath.Join(e.root, fmt.Sprint(c.ID))
			for _, p := range []string{dir, filepath.Join(dir, "sub")} {
				if err := os.Mkdir(p, 0755); err != nil {
					return err
				}
				os.Chown(p, nobody, nobody)
			}
			given := map[string]string{"in.html": c.HTML, "old.md": "old"}
			for n, s := range given {
				if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0644); err != nil {
					return err
				}
				os.Chown(filepath.Join(dir, n), nobody, nobody)
			}
			var stdin *string
			switch c.Stdin {
			case "doc":
				stdin = &c.HTML
			case "other":
				s := "<div class=z><p>other</p></div>"
				stdin = &s
			}
			res := e.runFrom(dir, stdin, c.ID%3 == 0, c.Full, c.Args...)
			files := []map[string]string{}
			for _, f := range e.snapshot(dir) {
				p := strings.Join(f.P, "/")
				if old, ok := given[p]; f.K != "dir" && !(ok && old == f.C) {
					files = append(files, map[string]string{"p": p, "c": f.C})
				}
				delete(given, p)
			}
			for p := range given {
				files = append(files, map[string]string{"p": p, "c": "removed"})
			}
			os.RemoveAll(dir)
			lib := ""
			if c.K == "ok" {
				plugins := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(commonmark.WithStrongDelimiter(c.T["opt-strong-delimiter"]))}
				if c.B["plugin-strikethrough"] {
					plugins = append(plugins, strikethrough.NewStrikethroughPlugin())
				}
				if c.B["plugin-table"] {
					plugins = append(plugins, table.NewTablePlugin(
						table.WithSkipEmptyRows(c.B["opt-table-skip-empty-rows"]),
						table.WithHeaderPromotion(c.B["opt-table-header-promotion"]),
						table.WithPresentationTables(c.B["opt-table-presentation-tables"]),
						table.WithSpanCellBehavior(table.SpanCellBehavior(c.T["opt-table-span-cell-behavior"])),
						table.WithNewlineBehavior(table.NewlineBehavior(c.T["opt-table-newline-behavior"])),
						table.WithCellPaddingBehavior(table.CellPaddingBehavior(c.T["opt-table-cell-padding-behavior"]))))
				}
				conv := converter.NewConverter(converter.WithPlugins(plugins...))
				if lib, err = conv.ConvertString(c.Rest, converter.WithDomain(c.T["domain"])); err != nil {
					lib = "ERROR " + err.Error()
				}
			}
			if err := enc.Encode(map[string]any{"id": c.ID, "args": c.Args, "stdin": c.Stdin, "full": c.Full, "exit": res.exit,
				"stdout": res.stdout, "stderr": res.stderr, "files": files, "lib": lib, "k": c.K}); err != nil {
				return err
			}
		}
	}
}
