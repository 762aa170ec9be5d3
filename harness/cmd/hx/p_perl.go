package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/Sereal/Sereal/Go/sereal"
	"verif/harness/spec"
)

func init() {
	register(&Prop{ID: "C23", Fn: c23, Quick: 60000, Thorough: 2000000,
		Rule: "values of Perl's kinds encoded with PerlCompat, documents of Perl's kinds generated from the specification and what the Perl encoder makes of them with random options, " +
			"each read by the Perl modules, the Go package and the independent parser; non-trivial: there is a reference to a container or an object",
		Assume: []string{"the Perl modules of this repository with the system's Perl are the other side",
			"arrays, hashes and regular expressions are behind references, hash keys differ, text is UTF-8",
			"Perl has no documents of version 5 to offer: the Go package reads versions 1 to 4"}})
}

// peer is a Perl process.
type peer struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var thePeer *peer

func startPeer() *peer {
	dir := os.Getenv("VERIF_PERL")
	if dir == "" {
		panic("VERIF_PERL is not set")
	}
	var args []string
	for _, m := range []string{"Decoder", "Encoder", "Merger"} {
		for _, l := range []string{"lib", "arch"} {
			args = append(args, "-I"+filepath.Join(dir, "Perl", m, "blib", l))
		}
	}
	cmd := exec.Command("perl", append(args, filepath.Join(dir, "peer.pl"))...)
	cmd.Stderr = os.Stderr
	p := &peer{cmd: cmd}
	var err error
	if p.in, err = cmd.StdinPipe(); err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	p.out = bufio.NewReaderSize(out, 1<<16)
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return p
}

func (p *peer) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// perl asks the Perl process. It returns the chunks of its answer, or what went wrong.
func perl(c *Case, op byte, opts map[string]string, doc []byte) ([]string, string) {
	if thePeer != nil && thePeer.n > 20000 {
		thePeer.stop()
		thePeer = nil
	}
	if thePeer == nil {
		thePeer = startPeer()
	}
	p := thePeer
	p.n++
	var l []string
	for k, v := range opts {
		l = append(l, k+"="+v)
	}
	req := append([]byte{op}, strings.Join(l, ",")+"\n"...)
	req = append(req, doc...)
	timer := time.AfterFunc(30*time.Second, func() { p.cmd.Process.Kill() })
	defer timer.Stop()
	fail := func(err error) ([]string, string) {
		p.stop()
		thePeer = nil
		c.Fail("the Perl process ended: %v (%v)", err, p.cmd.ProcessState)
		return nil, ""
	}
	if _, err := p.in.Write(append(binary.BigEndian.AppendUint32(nil, uint32(len(req))), req...)); err != nil {
		return fail(err)
	}
	var n [4]byte
	if _, err := io.ReadFull(p.out, n[:]); err != nil {
		return fail(err)
	}
	ans := make([]byte, binary.BigEndian.Uint32(n[:]))
	if _, err := io.ReadFull(p.out, ans); err != nil {
		return fail(err)
	}
	var chunks []string
	for b := ans[1:]; len(b) > 0; {
		k := binary.BigEndian.Uint32(b)
		chunks = append(chunks, string(b[4:4+k]))
		b = b[4+k:]
	}
	if ans[0] != 'K' {
		return nil, chunks[0]
	}
	return chunks, ""
}

// inPerl has Perl decode the document and compares with what the parser says it is.
func inPerl(c *Case, what string, b []byte, body, header *spec.Node, opts map[string]string, op byte) []string {
	o := map[string]string{}
	for k, v := range opts {
		o[k] = v
	}
	if header != nil {
		o["header"] = "1"
	}
	chunks, e := perl(c, op, o, b)
	if e != "" {
		c.Fail("%s: Perl refuses the document: %s\n  % x", what, e, cut(b))
	}
	for i, n := range []*spec.Node{body, header} {
		if n == nil {
			break
		}
		p, err := spec.PerlOf(n, true)
		if err != nil {
			panic(err)
		}
		want, got := spec.TrimDump(p.Dump(n)), spec.TrimDump(chunks[i])
		if want != got {
			c.Fail("%s: Perl sees something else (%s)\n  want %s\n  got  %s\n  % x", what, [...]string{"body", "header"}[i], around(want, got), around(got, want), cut(b))
		}
	}
	return chunks
}

// around is the part of a where it differs from b.
func around(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo, hi := max(0, i-150), min(len(a), i+150)
	return fmt.Sprintf("%s (at %d of %d)", a[lo:hi], i, len(a))
}

func decoderOpts(c *Case) map[string]string {
	o := map[string]string{}
	if spec.Bool(c.T) {
		o["reuse"] = "1"
	}
	return o
}

func encoderOpts(c *Case) map[string]string {
	t := c.T
	o := decoderOpts(c)
	ver := spec.One(t, 4, 3, 2, 1)
	o["e_protocol_version"] = fmt.Sprint(ver)
	o["e_freeze_callbacks"] = "1"
	if spec.Bool(t) {
		o["e_dedupe_strings"] = "1"
	}
	if spec.Chance(t, 3) {
		o["e_no_shared_hashkeys"] = "1"
	}
	if spec.Chance(t, 3) {
		o[spec.One(t, "e_sort_keys", "e_canonical", "e_canonical_refs")] = "1"
	}
	if spec.Chance(t, 2) {
		// SRL_SNAPPY 1, SRL_ZLIB 2, SRL_ZSTD 3
		o["e_compress"] = fmt.Sprint(spec.N(t, 1, 1+min(2, ver-2+boolInt(ver == 1))))
		if spec.Bool(t) {
			o["e_compress_threshold"] = fmt.Sprint(spec.One(t, 0, 1, 20, 100))
		}
	}
	return o
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c23(c *Case) {
	if spec.Chance(c.T, 3) {
		c23go(c)
	} else {
		c23doc(c)
	}
}

// c23go: what the Go package writes is read by Perl.
func c23go(c *Case) {
	t := c.T
	cfg := spec.Enc(t, 1, 2, 3, 3, 3)
	cfg.Perl, cfg.MaxDepth = true, 0
	g := spec.NewGoGen(t)
	g.Ptrs, g.Typed, g.JSON, g.Perl, g.PerlOnly = spec.Bool(t), spec.Bool(t), true, spec.Bool(t), true
	g.Bare = true
	g.Extra = frozenLeaf
	v := g.Value()
	c.Descf("settings %+v", cfg)
	c.Describe(func() string { return "value " + spec.Show(v) })
	var b []byte
	var err error
	if spec.Chance(t, 4) && cfg.Effective() > 1 {
		b, err = cfg.New().MarshalWithHeader(g.Scalar(), v)
	} else {
		b, err = cfg.New().Marshal(v)
	}
	if err != nil {
		c.Fail("encoding failed: %v", err)
	}
	doc := checkDoc(c, b, v, cfg)
	c.Key(b)
	c.Class("from Go")
	if _, err := spec.PerlOf(doc.Body, true); err != nil {
		c.Class("not for Perl: " + strings.SplitN(err.Error(), " \"", 2)[0])
		return
	}
	if doc.HasHeader {
		if _, err := spec.PerlOf(doc.Header, true); err != nil {
			return
		}
	}
	inPerl(c, "Go", b, doc.Body, doc.Header, decoderOpts(c), 'D')
	c.NonTrivial(perlish(doc.Body))
	cfgClasses(c, cfg)
}

func perlish(n *spec.Node) bool {
	ok := false
	n.Walk(func(n *spec.Node) {
		switch n.K {
		case spec.KRef, spec.KObject, spec.KFreeze:
			ok = true
		}
	})
	return ok
}

// c23doc: what Perl writes is read by the Go package, and what that writes of it is
// read by Perl.
func c23doc(c *Case) {
	t := c.T
	d := spec.Gen(t, spec.DocOpts{Perl: true})
	c.Describe(func() string { return "document " + d.String() })
	for _, n := range []*spec.Node{d.Body, d.Header} {
		if n != nil {
			if _, err := spec.PerlOf(n, false); err != nil || sameBytes(n) {
				c.Class(fmt.Sprint("not for Perl: ", err))
				return
			}
		}
	}
	docClasses(c, d)
	c.Key(d.Bytes)
	c.NonTrivial(perlish(d.Body))
	var header *spec.Node
	if d.HasHeader {
		header = d.Header
	}
	if spec.Chance(t, 2) {
		c.Class("by Go")
		inPerl(c, "specification", d.Bytes, d.Body, header, decoderOpts(c), 'D')
		throughGo(c, d.Bytes, d.Body, header)
		return
	}
	o := encoderOpts(c)
	c.Descf("options %v", o)
	chunks := inPerl(c, "specification", d.Bytes, d.Body, header, o, 'E')
	b := []byte(chunks[len(chunks)-1])
	doc, err := spec.Parse(b)
	if err != nil && strings.Contains(err.Error(), "ALIAS refers to an unfinished item") {
		c.Class("ALIAS to what it is part of")
		return
	}
	if err != nil {
		c.Fail("Perl wrote a document that is malformed: %v\n  % x", err, cut(b))
	}
	if fmt.Sprint(doc.Version) != o["e_protocol_version"] {
		c.Fail("Perl wrote version %d", doc.Version)
	}
	var h *spec.Node
	if doc.HasHeader {
		h = doc.Header
	}
	c.Class(fmt.Sprintf("by Perl v%d type %d", doc.Version, doc.Type))
	canon := false // before version 3 there is no canonical undef, and references to it are written as shared
	d.Body.Walk(func(n *spec.Node) { canon = canon || n.K == spec.KCanonUndef })
	if header != nil {
		header.Walk(func(n *spec.Node) { canon = canon || n.K == spec.KCanonUndef })
	}
	for i, n := range []*spec.Node{doc.Body, h} {
		if n == nil {
			break
		}
		p, err := spec.PerlOf(n, true)
		if err != nil {
			c.Fail("Perl wrote a document that is not for Perl: %v\n  % x", err, cut(b))
		}
		// Copies of its booleans are a number and a string to the encoder, it takes equal strings for the same
		// whether flagged as UTF-8 or not, and what was thawed has a class of the harness.
		want, got := loosen(spec.TrimDump(chunks[i])), loosen(spec.TrimDump(p.Dump(n)))
		if want != got && !(doc.Version < 3 && canon) {
			c.Fail("Perl wrote something else\n  want %s\n  got  %s\n  % x", around(want, got), around(got, want), cut(b))
		}
	}
	inPerl(c, "Perl's own", b, doc.Body, h, decoderOpts(c), 'D')
	throughGo(c, b, doc.Body, h)
}

var (
	frozenClass = regexp.MustCompile(`Zb[0-9a-f]*;`)
	asciiString = regexp.MustCompile(`[bu]((?:[0-7][0-9a-f])*;)`)
	boolean     = strings.NewReplacer("t;", "i1;", "f;", "b;")
)

func loosen(s string) string {
	return asciiString.ReplaceAllString(boolean.Replace(frozenClass.ReplaceAllString(s, "Z")), "s$1")
}

// throughGo decodes in both modes, encodes again, and shows the result to Perl.
func throughGo(c *Case, b []byte, body, header *spec.Node) {
	t := c.T
	if sameBytes(body) || header != nil && sameBytes(header) {
		c.Class("keys only Perl can tell apart")
		return
	}
	for _, pc := range []bool{false, true} {
		m := &spec.Matcher{Perl: pc, Sharing: true}
		dec := &sereal.Decoder{PerlCompat: pc}
		var h, v interface{}
		var err error
		if header != nil {
			err = dec.UnmarshalHeaderBody(b, &h, &v)
		} else {
			err = dec.Unmarshal(b, &v)
		}
		if err != nil {
			c.Fail("PerlCompat %v: document refused: %v\n  % x", pc, err, cut(b))
		}
		if r := m.Match(body, v); r != "" {
			c.Fail("PerlCompat %v: %s\n  % x", pc, r, cut(b))
		}
		if header != nil {
			if r := m.Match(header, h); r != "" {
				c.Fail("PerlCompat %v: header: %s\n  % x", pc, r, cut(b))
			}
		}
		if !pc {
			continue
		}
		frozen := false
		body.Walk(func(n *spec.Node) { frozen = frozen || n.K == spec.KFreeze })
		if header != nil {
			header.Walk(func(n *spec.Node) { frozen = frozen || n.K == spec.KFreeze })
		}
		if frozen {
			break
		}
		cfg := spec.Enc(t, 1, 2, 3, 3, 3)
		cfg.Perl, cfg.MaxDepth = true, 0
		c.Descf("settings %+v", cfg)
		var b2 []byte
		if header != nil && cfg.Effective() > 1 {
			b2, err = cfg.New().MarshalWithHeader(h, v)
		} else {
			b2, err = cfg.New().Marshal(v)
		}
		if err != nil {
			c.Fail("encoding what was decoded failed: %v", err)
		}
		doc, err := spec.Parse(b2)
		if err != nil {
			c.Fail("the document is malformed: %v\n  % x", err, cut(b2))
		}
		o := spec.EqOpts{IgnoreKeyUTF: true, IgnoreCanon: cfg.Effective() < 3}
		if r := spec.Equal(wrapBare(body), doc.Body, o); r != "" {
			c.Fail("the meaning changed: %s\n  % x", r, cut(b2))
		}
		// keys become text, and sharing of scalars gets lost, so it may have become something else for Perl
		if _, err := spec.PerlOf(doc.Body, true); err == nil {
			c.Class("Perl, Go, Perl")
			inPerl(c, "Go again", b2, doc.Body, nil, decoderOpts(c), 'D')
		} else {
			c.Class("not again: " + strings.SplitN(err.Error(), " \"", 2)[0])
		}
	}
}

// sameBytes: hash keys that differ for Perl have the same bytes.
func sameBytes(n *spec.Node) bool {
	same := false
	n.Walk(func(n *spec.Node) {
		if n.K == spec.KHash {
			keys := map[string]bool{}
			for _, k := range n.Keys {
				same = same || keys[k]
				keys[k] = true
			}
		}
	})
	return same
}
