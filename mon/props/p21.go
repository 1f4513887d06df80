package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
)

// P21: the dump command.

func decodeJSON(b []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func (c *Ctx) dumpCommand(dir string, args []string) (status int, out, errOut string) {
	cmd := exec.Command(filepath.Join(Root, "build", "dump"), args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if x, ok := err.(*exec.ExitError); ok {
		status = x.ExitCode()
	} else if err != nil {
		panic(trouble("the dump command does not run: " + err.Error()))
	}
	c.Event("command runs", 1)
	return status, so.String(), se.String()
}

// hostileName draws a file name.
func (c *Ctx) hostileName() string {
	const plain = "a.proto|x|a.b.c|b.PROTO|-|-proto|--help|-debug|~|~root|$HOME|${a}|*|?.proto|[a].proto|{a,b}|a b|a\tb|a\nb|a\r|.hidden|..a|a..|...|%s|%d%n|%25|a%2Fb|\\|a\\b|a:b|c:|http:|file:a|a;b|a,b|a=b|=|'|\"|\"a\"|'a'|<a>|&|a&b|a|`|#|#a|@|@a|!|+|é|Ünï code.proto|日本|\u2028|\ufeff|\u202e|\x01|\x7f|\xff|e\u0301|stdin|null|nul|con|true|0|proto"
	names := strings.Split(plain, "|")
	n := names[c.Intn(len(names))]
	switch c.Intn(8) {
	case 0:
		n = " " + n
	case 1:
		n += " "
	case 2:
		n += []string{"\n", "\t", ".", "\u00a0", ".gz", ".proto", "~", ".txt"}[c.Intn(8)]
	case 3:
		n = strings.Repeat("long", 1+c.Intn(50)) + n
	case 4:
		n += names[c.Intn(len(names))]
	}
	if strings.Trim(n, ".") == "" {
		n += "x"
	}
	return n
}

// noSpace drops the white space between the tokens of a JSON text.
func noSpace(text string) string {
	var b strings.Builder
	b.Grow(len(text) / 8)
	in := false
	for i := 0; i < len(text); i++ {
		ch := text[i]
		switch {
		case in && ch == '\\':
			b.WriteByte(ch)
			i++
			if i < len(text) {
				b.WriteByte(text[i])
			}
			continue
		case ch == '"':
			in = !in
		case !in && (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r'):
			continue
		}
		b.WriteByte(ch)
	}
	return b.String()
}

// p21deep runs the command on deeply nested messages and option values, whose trees can be deeper than what can be written as indented JSON.
// The status says whether the tree was written.
func p21deep(c *Ctx) {
	dir, err := os.MkdirTemp(filepath.Join(Root, "build"), "p21-")
	must(err)
	defer os.RemoveAll(dir)
	n := []int{200, 500, 900, 3330 + c.Intn(20), 4990 + c.Intn(20), 3400 + c.Intn(1500), 5000 + c.Intn(4900), 9990 + c.Intn(20)}[c.Intn(8)]
	unordered := c.Intn(2) == 0
	if n < 5010 && 1000 < n && !unordered {
		n += 1700 // Half a gigabyte of spaces otherwise.
	}
	c.input = fmt.Sprintf("%d nested messages", n)
	src := strings.Repeat("message A {", n) + strings.Repeat("}", n)
	must(os.WriteFile(filepath.Join(dir, "a.proto"), []byte(src), 0o600))
	args := []string{"-proto", "a.proto"}
	if unordered {
		args = append(args, "-unordered")
	}
	status, out, errOut := c.dumpCommand(dir, args)
	say := func(format string, a ...any) {
		c.Fail("dump %q of %d nested messages: %s\nexit status %d\nstandard output of %d bytes %q\nstandard error %q", args, n, fmt.Sprintf(format, a...), status, len(out), clip(out, 500), clip(errOut, 500))
	}
	var tree any
	p, err := protoparser.Parse(strings.NewReader(src), protoparser.WithFilename("a.proto"))
	if err == nil {
		tree = p
		if unordered {
			tree, err = protoparser.UnorderedInterpret(p)
		}
	}
	switch {
	case status != 0:
		if err == nil && n < 1000 {
			say("the library accepts the file")
		}
		if out != "" {
			say("output although the status is not zero")
		}
		if strings.TrimSpace(errOut) == "" {
			say("no message")
		}
		c.Event("deep trees not written", 1)
	case err != nil:
		say("status zero, but the library answers %v", err)
	default:
		b, err := json.Marshal(tree)
		if err != nil {
			say("the library's tree does not marshal: %v", err)
		}
		if noSpace(out) != string(b) {
			say("the output is not the library's tree")
		}
		c.Event("deep trees written", 1)
	}
	c.Eval(true, fmt.Sprint(n, unordered))
}

// p21full runs the command with a standard output that takes nothing, or only a part.
func p21full(c *Ctx) {
	dir, err := os.MkdirTemp(filepath.Join(Root, "build"), "p21-")
	must(err)
	defer os.RemoveAll(dir)
	src := c.source(c.Intn(4) == 0)
	c.input = src
	must(os.WriteFile(filepath.Join(dir, "a.proto"), []byte(src), 0o600))
	args := []string{"-proto", "a.proto"}
	if c.Intn(2) == 0 {
		args = append(args, "-unordered")
	}
	cmd := exec.Command(filepath.Join(Root, "build", "dump"), args...)
	cmd.Dir = dir
	var se bytes.Buffer
	cmd.Stderr = &se
	// Neither end of the output can be written to: it is open for reading only.
	f, err := os.Open(filepath.Join(dir, "a.proto"))
	must(err)
	defer f.Close()
	cmd.Stdout = f
	err = cmd.Run()
	c.Event("command runs", 1)
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(trouble("the dump command does not run: " + err.Error()))
	}
	if err == nil {
		c.Fail("dump %q: status zero although standard output takes nothing\nstandard error %q", args, clip(se.String(), 500))
	}
	if strings.TrimSpace(se.String()) == "" {
		c.Fail("dump %q: no message although standard output takes nothing", args)
	}
	c.Event("broken outputs", 1)
	c.Eval(true, "full"+src)
}

func p21run(c *Ctx) {
	switch {
	case c.Index%40 == 3:
		p21deep(c)
		return
	case c.Index%40 == 7:
		p21full(c)
		return
	}
	dir, err := os.MkdirTemp(filepath.Join(Root, "build"), "p21-")
	must(err)
	defer os.RemoveAll(dir)
	name := c.hostileName()
	path := filepath.Join(dir, name)
	if c.Intn(4) == 0 {
		name = c.hostileName() + "/" + name
		path = filepath.Join(dir, name)
		must(os.MkdirAll(filepath.Dir(path), 0o700))
	}

	src := ""
	kind := "file"
	switch c.Intn(16) {
	case 0, 1, 2, 3, 4:
		src = c.layoutSource(true)
	case 5, 6, 7:
		src = c.source(false)
	case 8, 9, 10:
		src = c.source(true)
	case 11:
		src = c.lexText()
	case 12:
		src = []string{"", "\n", "// only a comment", ";", "\ufeff", "\x00", "syntax = \"proto3\";", "option a = \"<&>\u2028\\n%d\";", "// <b>&amp;</b>\nmessage A{}"}[c.Intn(9)]
	case 13: // much output
		src = strings.Repeat(c.source(false)+"\n", 1+c.Intn(6))
	case 14:
		kind = "missing"
	case 15:
		kind = "directory"
	}
	c.input = src
	switch kind {
	case "file":
		must(os.WriteFile(path, []byte(src), 0o600))
	case "directory":
		must(os.Mkdir(path, 0o700))
	}

	debug, strict, unordered := c.Intn(6) == 0, c.Intn(3) == 0, c.Intn(2) == 0
	arg := path
	if c.Intn(3) == 0 { // relative, in the working directory of the command
		arg = name
		if c.Intn(3) == 0 {
			arg = "./" + name
		}
	} else if c.Intn(6) == 0 { // another way to write it
		arg = dir + "//./" + name
	}
	args := []string{"-proto", arg}
	if c.Intn(2) == 0 {
		args = []string{"-proto=" + arg}
	}
	if strict || c.Intn(3) == 0 {
		args = append(args, fmt.Sprintf("-permissive=%v", !strict))
	}
	if debug {
		args = append(args, "-debug")
	}
	if unordered {
		args = append(args, "-unordered")
	} else if c.Intn(3) == 0 {
		args = append(args, "-unordered=false")
	}
	status, out, errOut := c.dumpCommand(dir, args)
	say := func(format string, a ...any) {
		c.Fail("dump %q (%s): %s\nexit status %d\nstandard output %q\nstandard error %q", args, kind, fmt.Sprintf(format, a...), status, clip(out, 2000), clip(errOut, 2000))
	}

	var tree any
	if kind == "file" {
		p, err := protoparser.Parse(strings.NewReader(src), protoparser.WithPermissive(!strict), protoparser.WithFilename(filepath.Base(path)))
		if err == nil {
			tree = p
			if unordered {
				tree, err = protoparser.UnorderedInterpret(p)
				if err != nil {
					say("the library does not interpret its tree: %v", err)
				}
			}
		}
	}
	flags := fmt.Sprint(strict, unordered, debug)
	if tree == nil {
		switch {
		case status == 0:
			say("status zero, but the library rejects the file")
		case out != "" && !debug:
			say("output for a rejected file")
		case debug && strings.Contains(out, "\"ProtoBody\""):
			say("a tree for a rejected file")
		case strings.TrimSpace(errOut) == "":
			say("no message")
		}
		c.Event("rejected "+kind, 1)
		c.Eval(true, flags+kind+src)
		return
	}
	if status != 0 {
		say("the library accepts the file")
	}
	if errOut != "" && !debug {
		say("a message although the file is accepted")
	}
	got, err := decodeJSON([]byte(out))
	if err != nil {
		say("the output is not one JSON value: %v", err)
	}
	b, err := json.Marshal(tree)
	if err != nil {
		say("the library's tree does not marshal: %v", err)
	}
	want, err := decodeJSON(b)
	if err != nil {
		panic(err)
	}
	if !reflect.DeepEqual(got, want) {
		say("the output is not the library's tree %s", clip(string(b), 2000))
	}
	c.Event("accepted", 1)
	if unordered {
		c.Event("unordered trees", 1)
	} else {
		c.Event("ordered trees", 1)
	}
	c.Eval(len(src) > 0, flags+src)
}

func init() {
	register(&Prop{ID: "P21", Cases: scale(2500, 40000), Run: p21run, MinNontrivial: 1500,
		MinEvents: map[string]int64{"rejected file": 200, "rejected missing": 30, "rejected directory": 30, "accepted": 500, "unordered trees": 200, "ordered trees": 200, "deep trees written": 10, "deep trees not written": 15, "broken outputs": 40},
		Rule:      "runs of the built command on generated files (conforming in random layouts, mutants, token soup, edge cases, large ones), missing files and directories under random flags; status, both outputs compared with the library's verdict and tree; non-trivial = a distinct file and flag combination"})
}
