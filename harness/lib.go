package main

// Access to the library under test.

import (
	"bytes"
	"fmt"
	"io"
	"reflect"

	protoparser "github.com/yoheimuta/go-protoparser/v4"
	"github.com/yoheimuta/go-protoparser/v4/parser"
)

type libOpts struct {
	strict, body, debug bool
	file                string
}

func (o libOpts) list() []protoparser.Option {
	var l []protoparser.Option
	// the permissive option is left at its default half of the time
	if o.strict || len(o.file)%2 == 1 {
		l = append(l, protoparser.WithPermissive(!o.strict))
	}
	if o.body {
		l = append(l, protoparser.WithBodyIncludingComments(true))
	}
	if o.debug {
		l = append(l, protoparser.WithDebug(true))
	}
	if o.file != "" {
		l = append(l, protoparser.WithFilename(o.file))
	}
	return l
}

func (c *Case) opts() libOpts { return libOpts{c.Strict, c.Body, c.Debug, c.File} }

func libParse(src []byte, o libOpts) (*parser.Proto, error) {
	return protoparser.Parse(bytes.NewReader(src), o.list()...)
}

func libParseReader(r io.Reader, o libOpts) (*parser.Proto, error) {
	return protoparser.Parse(r, o.list()...)
}

// nilIn finds a nil element in a tree: a nil in a slice or interface, or a
// pointer to nil held by an interface.
func nilIn(v reflect.Value, path string, depth int) string {
	if depth > 3000 {
		return ""
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return ""
		}
		return nilIn(v.Elem(), path, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return path + " is nil"
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr && e.IsNil() {
			return path + " holds a nil " + e.Type().String()
		}
		return nilIn(e, path, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			if s := nilIn(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1); s != "" {
				return s
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			p := fmt.Sprintf("%s[%d]", path, i)
			if e.Kind() == reflect.Ptr && e.IsNil() {
				return p + " is nil"
			}
			if s := nilIn(e, p, depth+1); s != "" {
				return s
			}
		}
	}
	return ""
}

// countStmts counts the nodes that are statements, and the kinds among them.
func countStmts(n *Node) (count int, kinds map[string]bool) {
	kinds = map[string]bool{}
	n.walk(func(m *Node) {
		switch m.Kind {
		case "proto", "opt", "range", "resname", "request", "response", "comment":
		default:
			count++
			kinds[m.Kind] = true
		}
	})
	return
}

// sameExported tells whether two trees are equal in everything a user can see:
// like reflect.DeepEqual, but fields that are not exported do not count.
func sameExported(a, b interface{}) bool {
	return reflect.DeepEqual(a, b) || sameValue(reflect.ValueOf(a), reflect.ValueOf(b))
}

func sameValue(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return a.Kind() == reflect.Ptr && a.Pointer() == b.Pointer() || sameValue(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath == "" && !sameValue(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Slice:
		if a.Len() != b.Len() || a.IsNil() != b.IsNil() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameValue(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
