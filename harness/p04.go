package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/Tom5521/gotext-tools/v2/pkg/po"
	"github.com/Tom5521/gotext-tools/v2/pkg/po/parse"
	"pgregory.net/rapid"
)

type poReadOpts struct {
	IgnoreComments, IgnoreAll, SkipHeader, NoClean, NoObsolete, Custom bool
	Prefix                                                             rune
}

func drawReadOpts(t *rapid.T) poReadOpts {
	o := poReadOpts{
		IgnoreComments: chance(t, "ignorecomments", 20), IgnoreAll: chance(t, "ignoreall", 15), SkipHeader: chance(t, "skipheader", 20),
		NoClean: chance(t, "noclean", 30), NoObsolete: chance(t, "noobsolete", 20), Custom: chance(t, "custom", 20),
	}
	if o.Custom {
		o.Prefix = oneOf(t, "prefix", '~', '!', '$', '*', '+', 'x', '.', ':', ',', '|', ' ', '\\', '(', '[', 'é', 0, -1, 0x110000)
	}
	return o
}

func (o poReadOpts) options() []parse.PoOption {
	return []parse.PoOption{
		parse.PoWithIgnoreComments(o.IgnoreComments), parse.PoWithIgnoreAllComments(o.IgnoreAll), parse.PoWithSkipHeader(o.SkipHeader),
		parse.PoWithCleanDuplicates(!o.NoClean), parse.PoWithParseObsolete(!o.NoObsolete),
		parse.PoWithUseCustomObsoletePrefix(o.Custom), parse.PoWithCustomObsoletePrefix(o.Prefix),
	}
}

var poTokens = []string{
	"msgid", "msgstr", "msgctxt", "msgid_plural", "msgstr[0]", "msgstr[1]", "msgstr[", "]", "[", `""`, `"a"`, `"`, `"b\n"`, `"\`, `"\x"`, `"\400"`, `"\q"`, `"\u12"`,
	"\n", "\n", "\n", " ", "\t", "\r\n", "#", "# c", "#. x", "#: a.go:1 b.go", "#: :", "#: ::", "#:", "#: a:99999999999999999999", "#, fuzzy", "#,", "#, ,", "#| msgid \"o\"", "#|",
	"#~", "#~ ", "#~ msgid \"o\"", "#~ msgstr \"\"", "#~|", "#~ #~ msgid", "#~~", "#~ # c", "0", "12", "99999999999999999999", "\xff", "\x00", "\ufeff", "msgidmsgstr", "---", `msgid "---"`, `msgstr "---"`,
	"Content-Type: text/plain; charset=X\\n",
}

type p04Case struct {
	Data []byte
	Opts poReadOpts
	Kind string
}

// mutate applies random byte- and token-level edits.
func mutate(t *rapid.T, b []byte, tokens []string) []byte {
	b = append([]byte(nil), b...)
	for i := intn(t, "edits", 1, 6); i > 0 && len(b) > 0; i-- {
		p := intn(t, "pos", 0, len(b)-1)
		q := p + intn(t, "len", 0, 12)
		if q > len(b) {
			q = len(b)
		}
		switch intn(t, "edit", 0, 5) {
		case 0:
			b = append(b[:p:p], b[q:]...)
		case 1:
			b = append(append(b[:p:p], oneOf(t, "tok", tokens...)...), b[p:]...)
		case 2:
			b = append(append(b[:q:q], b[p:q]...), b[q:]...)
		case 3:
			b[p] = byte(intn(t, "byte", 0, 255))
		case 4:
			b = b[:p:p]
		case 5:
			b = append(append(b[:p:p], oneOf(t, "tok", tokens...)...), b[q:]...)
		}
	}
	return b
}

func init() {
	register("P04", 80000, 1600000,
		"PO text rendered in random layouts then mutated, token soup, and arbitrary bytes, with random reader options; non-trivial: the text reaches the grammar (at least one keyword) and is not a plain valid rendering",
		func(t *rapid.T) p04Case {
			c := p04Case{Opts: drawReadOpts(t)}
			switch k := intn(t, "kind", 0, 9); {
			case k == 0:
				c.Kind = "arbitrary"
				c.Data = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")
			case k <= 4:
				c.Kind = "soup"
				for i := intn(t, "n", 0, 25); i > 0; i-- {
					c.Data = append(c.Data, oneOf(t, "tok", poTokens...)...)
					if chance(t, "nl", 50) {
						c.Data = append(c.Data, '\n')
					}
				}
			default:
				c.Kind = "mutated"
				s, _ := renderLayout(t, entries(t, allOpts, 0, 3))
				c.Data = mutate(t, []byte(s), poTokens)
			}
			return c
		},
		func(c p04Case, x *Ctx) error {
			x.NonTrivial(bytes.Contains(c.Data, []byte("msg")))
			x.Label(c.Kind, true)
			read := func() (*po.File, error, []byte) {
				buf := make([]byte, len(c.Data), len(c.Data)+64)
				copy(buf, c.Data)
				spare := buf[len(buf):cap(buf)]
				for i := range spare {
					spare[i] = 0xA5
				}
				f, err := parse.PoFromBytes(buf, "fuzz.po", c.Opts.options()...)
				return f, err, buf[:cap(buf)]
			}
			f, err, buf := read()
			if !bytes.Equal(buf[:len(c.Data)], c.Data) {
				return fmt.Errorf("input bytes were modified")
			}
			if strings.Trim(string(buf[len(c.Data):]), "\xa5") != "" {
				return fmt.Errorf("bytes behind the input were modified")
			}
			x.Label("accepted", err == nil)
			x.Label("rejected", err != nil)
			if f == nil && err == nil {
				return fmt.Errorf("neither a catalog nor an error")
			}
			f2, err2, _ := read()
			if (f == nil) != (f2 == nil) || fmt.Sprint(err) != fmt.Sprint(err2) {
				return fmt.Errorf("two readings differ: %v, %v", err, err2)
			}
			if f != nil {
				if err := diffEntries(f2.Entries, f.Entries); err != nil {
					return fmt.Errorf("two readings differ: %v", err)
				}
				if f.Name != "fuzz.po" {
					return fmt.Errorf("name %q", f.Name)
				}
			}
			return nil
		})
}
