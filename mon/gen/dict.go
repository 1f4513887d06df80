package gen

import (
	"go/scanner"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Dict are texts and sizes that occur in the code under test: inputs made of them reach what depends on them.
var Dict struct {
	Idents, Texts, Tokens []string
	// Runes are single characters.
	Runes []string
	Sizes []int
}

var identRE = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

// LoadDict reads the Go files below root that are not tests.
func LoadDict(root string) {
	strs, ints, runes := map[string]bool{}, map[int]bool{}, map[string]bool{}
	filepath.WalkDir(root, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		if d.IsDir() {
			if n := d.Name(); strings.HasPrefix(n, ".") && path != root || strings.HasPrefix(n, "_") || n == "testdata" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return nil
		}
		fset := token.NewFileSet()
		var s scanner.Scanner
		s.Init(fset.AddFile(path, fset.Base(), len(src)), src, func(token.Position, string) {}, 0)
		for {
			_, tok, lit := s.Scan()
			switch tok {
			case token.EOF:
				return nil
			case token.STRING, token.CHAR:
				if u, err := strconv.Unquote(lit); err == nil && u != "" && len(u) < 80 {
					strs[u] = true
					if len([]rune(u)) < 4 {
						for _, r := range u {
							runes[string(r)] = true
						}
					}
				}
			case token.INT:
				n, err := strconv.ParseInt(lit, 0, 64)
				if err == nil && n > 2 && n <= 20000 {
					ints[int(n)] = true
				}
				if err == nil && n > 31 && n <= utf8.MaxRune && utf8.ValidRune(rune(n)) {
					runes[string(rune(n))] = true
				}
			}
		}
	})
	for s := range strs {
		if identRE.MatchString(s) {
			Dict.Idents = append(Dict.Idents, s)
		}
		if !strings.ContainsAny(s, "\"'\\\n\x00") {
			Dict.Texts = append(Dict.Texts, s)
		}
		if !strings.ContainsAny(s, " \n") {
			Dict.Tokens = append(Dict.Tokens, s)
		}
	}
	for r := range runes {
		if r != "\n" && r != "\"" && r != "'" && r != "\\" && r != "\x00" {
			Dict.Runes = append(Dict.Runes, r)
		}
	}
	sort.Strings(Dict.Runes)
	for n := range ints {
		Dict.Sizes = append(Dict.Sizes, n)
	}
	sort.Strings(Dict.Idents)
	sort.Strings(Dict.Texts)
	sort.Strings(Dict.Tokens)
	sort.Ints(Dict.Sizes)
}
