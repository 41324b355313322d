package main

import (
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// pureFns are standard library functions without effects that depend on
// nothing but their arguments; instances apply them to concrete arguments. The
// functions of package bytes are taken for those of package strings.
var pureFns = map[string]any{
	"strings.LastIndex":      strings.LastIndex,
	"strings.LastIndexByte":  strings.LastIndexByte,
	"strings.IndexAny":       strings.IndexAny,
	"strings.IndexRune":      strings.IndexRune,
	"strings.ContainsRune":   strings.ContainsRune,
	"strings.ContainsAny":    strings.ContainsAny,
	"strings.Replace":        strings.Replace,
	"strings.ReplaceAll":     strings.ReplaceAll,
	"strings.SplitAfterN":    strings.SplitAfterN,
	"strings.CutSuffix":      strings.CutSuffix,
	"strings.Title":          strings.ToTitle,
	"strings.Count":          strings.Count,
	"strings.ToLower":        strings.ToLower,
	"strings.ToUpper":        strings.ToUpper,
	"strings.EqualFold":      strings.EqualFold,
	"strings.Compare":        strings.Compare,
	"strings.Repeat":         strings.Repeat,
	"strings.ToValidUTF8":    strings.ToValidUTF8,
	"strconv.Quote":          strconv.Quote,
	"strconv.Unquote":        strconv.Unquote,
	"strconv.FormatInt":      strconv.FormatInt,
	"strconv.FormatUint":     strconv.FormatUint,
	"strconv.FormatBool":     strconv.FormatBool,
	"strconv.ParseInt":       strconv.ParseInt,
	"strconv.ParseUint":      strconv.ParseUint,
	"strconv.ParseBool":      strconv.ParseBool,
	"unicode.IsDigit":        unicode.IsDigit,
	"unicode.IsSpace":        unicode.IsSpace,
	"unicode.IsLetter":       unicode.IsLetter,
	"unicode.IsUpper":        unicode.IsUpper,
	"unicode.IsLower":        unicode.IsLower,
	"unicode.IsPrint":        unicode.IsPrint,
	"utf8.RuneCountInString": utf8.RuneCountInString,
	"utf8.RuneLen":           utf8.RuneLen,
	"utf8.ValidString":       utf8.ValidString,
	"filepath.Base":          filepath.Base,
	"filepath.Dir":           filepath.Dir,
	"filepath.Ext":           filepath.Ext,
	"filepath.Clean":         filepath.Clean,
	"filepath.IsAbs":         filepath.IsAbs,
}

// pureName is the name under which pureFns knows the function, if it does.
func pureName(name string) (string, bool) {
	switch {
	case strings.HasPrefix(name, "bytes."):
		name = "strings." + name[6:]
	case strings.HasPrefix(name, "path/filepath."):
		name = name[5:]
	case strings.HasPrefix(name, "path."):
		name = "filepath." + name[5:]
	case strings.HasPrefix(name, "unicode/utf8."):
		name = strings.TrimSuffix(name[8:], "InString")
		switch name {
		case "utf8.RuneCount":
			name = "utf8.RuneCountInString"
		case "utf8.Valid":
			name = "utf8.ValidString"
		}
	}
	_, ok := pureFns[name]
	return name, ok
}

// pureCall applies a function of pureFns.
func pureCall(name string, args []Val) []Val {
	f := reflect.ValueOf(pureFns[name])
	ft := f.Type()
	if ft.NumIn() != len(args) {
		fail("%s with %d arguments", name, len(args))
	}
	in := make([]reflect.Value, len(args))
	for i, v := range args {
		t := ft.In(i)
		switch t.Kind() {
		case reflect.String:
			in[i] = reflect.ValueOf(toStr(v)).Convert(t)
		case reflect.Bool:
			b, ok := v.(bool)
			if !ok {
				fail("%s of %s", name, vkey(v))
			}
			in[i] = reflect.ValueOf(b)
		default:
			n, ok := v.(int64)
			if !ok {
				fail("%s of %s", name, vkey(v))
			}
			in[i] = reflect.ValueOf(n).Convert(t)
		}
	}
	var out []Val
	for _, r := range f.Call(in) {
		switch {
		case r.Kind() == reflect.String:
			out = append(out, r.String())
		case r.Kind() == reflect.Bool:
			out = append(out, r.Bool())
		case r.CanInt():
			out = append(out, r.Int())
		case r.CanUint():
			out = append(out, int64(r.Uint()))
		case r.Kind() == reflect.Slice:
			var ss []string
			for i := 0; i < r.Len(); i++ {
				ss = append(ss, r.Index(i).String())
			}
			out = append(out, strSeq(ss))
		case r.IsNil():
			out = append(out, nil)
		default:
			out = append(out, &EV{kind: "strconv"})
		}
	}
	return out
}

// errKind tells whether an error is of one of the kinds package os
// distinguishes. Injected failures are of none of them.
func errKind(name string, v Val) bool {
	e, ok := v.(*EV)
	if !ok {
		return false
	}
	switch {
	case e.kind == "no such file" || strings.HasPrefix(e.kind, "open "):
		return name == "os.IsNotExist"
	case e.kind == "file closed":
		return false
	}
	return false
}
