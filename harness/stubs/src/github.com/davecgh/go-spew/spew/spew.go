// Package spew stands in for github.com/davecgh/go-spew/spew.
package spew

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"unsafe"
)

// Texts of values are shown also where they are in fields that are not
// exported, as the original does.
func show(v reflect.Value) string {
	if !v.IsValid() {
		return "<nil>"
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case error:
			return x.Error()
		case fmt.Stringer:
			if v.Kind() != reflect.Ptr || !v.IsNil() {
				return x.String()
			}
		}
	}
	var l []string
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "<nil>"
		}
		return show(v.Elem())
	case reflect.Struct:
		if !v.CanAddr() {
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			v = c
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			l = append(l, v.Type().Field(i).Name+": "+show(f))
		}
		return "{" + strings.Join(l, ", ") + "}"
	case reflect.Map:
		for _, k := range v.MapKeys() {
			l = append(l, show(k)+": "+show(v.MapIndex(k)))
		}
		sort.Strings(l)
		return "{" + strings.Join(l, ", ") + "}"
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			l = append(l, show(v.Index(i)))
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	return fmt.Sprint(v)
}

type ConfigState struct {
	Indent                                                         string
	MaxDepth                                                       int
	DisableMethods, DisablePointerMethods, DisablePointerAddresses bool
	DisableCapacities, ContinueOnMethod, SortKeys, SpewKeys        bool
}

var Config = ConfigState{Indent: " "}

func NewDefaultConfig() *ConfigState { return &ConfigState{Indent: " "} }

func Sdump(a ...interface{}) (s string) {
	for _, x := range a {
		s += fmt.Sprintf("(%T) %s\n", x, show(reflect.ValueOf(x)))
	}
	return s
}
func Dump(a ...interface{})                                        { Fdump(os.Stdout, a...) }
func Fdump(w io.Writer, a ...interface{})                          { io.WriteString(w, Sdump(a...)) }
func (c *ConfigState) Dump(a ...interface{})                       { Dump(a...) }
func (c *ConfigState) Sdump(a ...interface{}) string               { return Sdump(a...) }
func (c *ConfigState) Fdump(w io.Writer, a ...interface{})         { Fdump(w, a...) }
func Printf(f string, a ...interface{}) (int, error)               { return fmt.Printf(f, a...) }
func Println(a ...interface{}) (int, error)                        { return fmt.Println(a...) }
func Print(a ...interface{}) (int, error)                          { return fmt.Print(a...) }
func Sprintf(format string, a ...interface{}) string               { return fmt.Sprintf(format, a...) }
func Sprint(a ...interface{}) string                               { return fmt.Sprint(a...) }
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) { return fmt.Fprintf(w, f, a...) }
