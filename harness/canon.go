package main

import (
	"encoding/base64"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// canon renders any value as text such that two values have the
// same text if and only if they mean the same: nil and empty
// slices and maps are the same, pointers are followed, a nil
// pointer differs from a pointer to a zero value.
func canon(v interface{}) map[string]string {
	out := map[string]string{}
	canonInto(out, "", reflect.ValueOf(v), 0)
	return out
}

func canonInto(out map[string]string, path string, v reflect.Value, depth int) {
	if depth > 200 {
		panic("harness: value is too deep")
	}
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			out[path] = "null"
			return
		}
		canonInto(out, path, v.Elem(), depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if v.Elem().Kind() == reflect.Struct {
			out[path] = "{}"
		}
		canonInto(out, path, v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			canonInto(out, path+"."+v.Type().Field(i).Name, v.Field(i), depth+1)
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Len() > 0 {
				out[path] = "bytes " + strconv.Quote(string(v.Bytes()))
			}
			return
		}
		if opaque := v.Type().Elem().Kind() == reflect.Interface; opaque {
			out[path] = "list"
		}
		if v.Len() > 0 {
			out[path+"#"] = strconv.Itoa(v.Len())
		}
		for i := 0; i < v.Len(); i++ {
			x := v.Index(i)
			if x.Kind() == reflect.Ptr && x.IsNil() {
				out[path+"["+strconv.Itoa(i)+"]"] = "nil"
				continue
			}
			canonInto(out, path+"["+strconv.Itoa(i)+"]", x, depth+1)
			if x.Kind() == reflect.String {
				out[path+"["+strconv.Itoa(i)+"]"] = strconv.Quote(x.String())
			}
		}
	case reflect.Map:
		if opaque := v.Type().Elem().Kind() == reflect.Interface; opaque {
			out[path] = "map"
		}
		if v.Len() > 0 {
			out[path+"#"] = strconv.Itoa(v.Len())
		}
		for _, k := range v.MapKeys() {
			p := path + "{" + keyText(k) + "}"
			x := v.MapIndex(k)
			if x.Kind() == reflect.Ptr && x.IsNil() {
				out[p] = "nil"
				continue
			}
			canonInto(out, p, x, depth+1)
			if x.Kind() == reflect.String {
				out[p] = strconv.Quote(x.String())
			}
		}
	case reflect.String:
		if v.Len() > 0 || path == "" || strings.HasSuffix(path, ".Value") {
			out[path] = strconv.Quote(v.String())
		}
	case reflect.Bool:
		if v.Bool() {
			out[path] = "true"
		} else if opaquePath(path) {
			out[path] = "false"
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() != 0 || opaquePath(path) {
			out[path] = "int " + strconv.FormatInt(v.Int(), 10)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() != 0 || opaquePath(path) {
			out[path] = "int " + strconv.FormatUint(v.Uint(), 10)
		}
	case reflect.Float64, reflect.Float32:
		f := v.Float()
		if f == 0 {
			f = 0 // -0
		}
		if f != 0 || opaquePath(path) {
			if math.IsNaN(f) {
				out[path] = "float NaN"
			} else {
				text := strconv.FormatFloat(f, 'g', -1, 64)
				out[path] = "float " + text
			}
		}
	case reflect.Func, reflect.Chan:
		if !v.IsNil() {
			out[path] = "func"
		}
	default:
		panic("harness: canon of " + v.Kind().String())
	}
}

// within opaque values the zero value counts.
func opaquePath(path string) bool { return strings.Contains(path, ".Value") }

func keyText(k reflect.Value) string {
	if k.Kind() == reflect.Interface {
		if k.IsNil() {
			return "nil"
		}
		k = k.Elem()
	}
	switch k.Kind() {
	case reflect.String:
		return strconv.Quote(k.String())
	case reflect.Int, reflect.Int64, reflect.Uint64, reflect.Bool:
		return fmt.Sprintf("%v", k.Interface())
	case reflect.Float64:
		return "float " + strconv.FormatFloat(k.Float(), 'g', -1, 64)
	}
	return fmt.Sprintf("%T %v", k.Interface(), k.Interface())
}

// diff describes the difference between two canonical values,
// or returns "".
func diff(got, want map[string]string) string {
	var keys []string
	for k := range got {
		keys = append(keys, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	var out []string
	for _, k := range keys {
		g, okg := got[k]
		w, okw := want[k]
		if okg == okw && g == w {
			continue
		}
		if !okg {
			g = "(absent)"
		}
		if !okw {
			w = "(absent)"
		}
		out = append(out, fmt.Sprintf("%s: got %s, want %s", k, clip(g, 400), clip(w, 400)))
		if len(out) == 6 {
			out = append(out, "...")
			break
		}
	}
	return strings.Join(out, "\n")
}

func same(got, want interface{}) string { return diff(canon(got), canon(want)) }

// sameNum is same, except that a float and an integer that are
// written with the same digits are equal (1.0 and 1).
func sameNum(got, want interface{}) string {
	g, w := canon(got), canon(want)
	for _, m := range []map[string]string{g, w} {
		for k, v := range m {
			if n := strings.TrimPrefix(v, "float "); n != v && strings.Trim(n, "-0123456789") == "" {
				m[k] = "int " + n
			}
		}
	}
	return diff(g, w)
}

func decodeBase64(s string) ([]byte, error) { return base64.StdEncoding.DecodeString(s) }
