// Package cli stands in for github.com/codegangsta/cli (v1): commands with
// flags of their own.
package cli

import (
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"
)

type Flag interface {
	add(s *flag.FlagSet)
	names() []string
}

type StringFlag struct {
	Name, Value, Usage, EnvVar string
	Hidden                     bool
	Destination                *string
}
type BoolFlag struct {
	Name, Usage, EnvVar string
	Hidden              bool
	Destination         *bool
}
type IntFlag struct {
	Name, Usage, EnvVar string
	Value               int
	Hidden              bool
	Destination         *int
}

func split(n string) (r []string) {
	for _, x := range strings.Split(n, ",") {
		r = append(r, strings.TrimSpace(x))
	}
	return r
}
func (f StringFlag) names() []string { return split(f.Name) }
func (f BoolFlag) names() []string   { return split(f.Name) }
func (f IntFlag) names() []string    { return split(f.Name) }
func (f StringFlag) add(s *flag.FlagSet) {
	v := f.Value
	if f.EnvVar != "" && os.Getenv(f.EnvVar) != "" {
		v = os.Getenv(f.EnvVar)
	}
	for _, n := range split(f.Name) {
		if f.Destination != nil {
			s.StringVar(f.Destination, n, v, f.Usage)
		} else {
			s.String(n, v, f.Usage)
		}
	}
}
func (f BoolFlag) add(s *flag.FlagSet) {
	for _, n := range split(f.Name) {
		if f.Destination != nil {
			s.BoolVar(f.Destination, n, false, f.Usage)
		} else {
			s.Bool(n, false, f.Usage)
		}
	}
}
func (f IntFlag) add(s *flag.FlagSet) {
	for _, n := range split(f.Name) {
		if f.Destination != nil {
			s.IntVar(f.Destination, n, f.Value, f.Usage)
		} else {
			s.Int(n, f.Value, f.Usage)
		}
	}
}

type Float64Flag struct {
	Name, Usage, EnvVar string
	Value               float64
	Hidden              bool
	Destination         *float64
}
type DurationFlag struct {
	Name, Usage, EnvVar string
	Value               time.Duration
	Hidden              bool
	Destination         *time.Duration
}
type BoolTFlag struct {
	Name, Usage, EnvVar string
	Hidden              bool
	Destination         *bool
}

func (f Float64Flag) names() []string  { return split(f.Name) }
func (f DurationFlag) names() []string { return split(f.Name) }
func (f BoolTFlag) names() []string    { return split(f.Name) }
func (f Float64Flag) add(s *flag.FlagSet) {
	for _, n := range split(f.Name) {
		if f.Destination != nil {
			s.Float64Var(f.Destination, n, f.Value, f.Usage)
		} else {
			s.Float64(n, f.Value, f.Usage)
		}
	}
}
func (f DurationFlag) add(s *flag.FlagSet) {
	for _, n := range split(f.Name) {
		if f.Destination != nil {
			s.DurationVar(f.Destination, n, f.Value, f.Usage)
		} else {
			s.Duration(n, f.Value, f.Usage)
		}
	}
}
func (f BoolTFlag) add(s *flag.FlagSet) {
	for _, n := range split(f.Name) {
		if f.Destination != nil {
			s.BoolVar(f.Destination, n, true, f.Usage)
		} else {
			s.Bool(n, true, f.Usage)
		}
	}
}

type Args []string

func (a Args) Tail() []string {
	if len(a) > 1 {
		return a[1:]
	}
	return nil
}

func (a Args) Get(n int) string {
	if len(a) > n {
		return a[n]
	}
	return ""
}
func (a Args) First() string { return a.Get(0) }
func (a Args) Present() bool { return len(a) > 0 }

type Context struct {
	App     *App
	Command Command
	set     *flag.FlagSet
	parent  *Context
}

func get(s *flag.FlagSet, n string) interface{} {
	if s == nil {
		return nil
	}
	f := s.Lookup(n)
	if f == nil {
		return nil
	}
	return f.Value.(flag.Getter).Get()
}
func (c *Context) String(n string) string { v, _ := get(c.set, n).(string); return v }
func (c *Context) Bool(n string) bool     { v, _ := get(c.set, n).(bool); return v }
func (c *Context) Int(n string) int       { v, _ := get(c.set, n).(int); return v }
func (c *Context) BoolT(n string) bool    { return c.Bool(n) }
func (c *Context) Float64(n string) float64 {
	v, _ := get(c.set, n).(float64)
	return v
}
func (c *Context) Duration(n string) time.Duration {
	v, _ := get(c.set, n).(time.Duration)
	return v
}
func (c *Context) NumFlags() int    { return c.set.NFlag() }
func (c *Context) Parent() *Context { return c.parent }
func (c *Context) GlobalInt(n string) int {
	if c.parent == nil {
		return c.Int(n)
	}
	return c.parent.GlobalInt(n)
}
func (c *Context) FlagNames() (names []string) {
	c.set.Visit(func(f *flag.Flag) { names = append(names, f.Name) })
	return names
}
func (c *Context) GlobalString(n string) string {
	if c.parent == nil {
		return c.String(n)
	}
	return c.parent.GlobalString(n)
}
func (c *Context) GlobalBool(n string) bool {
	if c.parent == nil {
		return c.Bool(n)
	}
	return c.parent.GlobalBool(n)
}
func (c *Context) IsSet(n string) (is bool) {
	c.set.Visit(func(f *flag.Flag) {
		if f.Name == n {
			is = true
		}
	})
	return is
}
func (c *Context) Args() Args { return Args(c.set.Args()) }
func (c *Context) NArg() int  { return c.set.NArg() }

type ActionFunc func(*Context) error
type BeforeFunc func(*Context) error
type AfterFunc func(*Context) error
type Author struct{ Name, Email string }

type Command struct {
	Name, ShortName, Usage, UsageText, Description, ArgsUsage, Category string
	Aliases                                                             []string
	Action                                                              interface{}
	Before                                                              BeforeFunc
	After                                                               AfterFunc
	SkipFlagParsing, HideHelp                                           bool
	Subcommands                                                         Commands
	Flags                                                               []Flag
	Hidden                                                              bool
}
type Commands []Command

type App struct {
	Name, HelpName, Usage, UsageText, Version, Description, Author, Email, Copyright string
	Flags                                                                            []Flag
	Commands                                                                         []Command
	Action                                                                           interface{}
	Authors                                                                          []Author
	HideHelp, HideVersion, EnableBashCompletion                                      bool
	Metadata                                                                         map[string]interface{}
	Before                                                                           BeforeFunc
	After                                                                            AfterFunc
	CommandNotFound                                                                  func(*Context, string)
	ErrWriter                                                                        io.Writer
	Writer                                                                           io.Writer
}

func NewApp() *App {
	return &App{Name: filepath.Base(os.Args[0]), HelpName: filepath.Base(os.Args[0]), Writer: os.Stdout, Version: "0.0.0"}
}

type ExitError struct {
	code int
	msg  string
}

func (e *ExitError) Error() string { return e.msg }
func (e *ExitError) ExitCode() int { return e.code }
func NewExitError(m interface{}, code int) *ExitError {
	return &ExitError{code, fmt.Sprint(m)}
}

type ExitCoder interface {
	error
	ExitCode() int
}

var OsExiter = os.Exit
var ErrWriter io.Writer = os.Stderr

func HandleExitCoder(err error) {
	if e, ok := err.(ExitCoder); ok {
		if e.Error() != "" {
			fmt.Fprintln(ErrWriter, e.Error())
		}
		OsExiter(e.ExitCode())
	}
}

func call(a interface{}, c *Context) error {
	var err error
	switch f := a.(type) {
	case func(*Context) error:
		err = f(c)
	case ActionFunc:
		err = f(c)
	case func(*Context):
		f(c)
	case nil:
		fmt.Println(c.App.Usage)
	default:
		return fmt.Errorf("cli: invalid action type %T", a)
	}
	HandleExitCoder(err)
	return err
}

func (a *App) Run(args []string) error {
	set := flag.NewFlagSet(a.Name, flag.ContinueOnError)
	for _, f := range a.Flags {
		f.add(set)
	}
	if err := set.Parse(args[1:]); err != nil {
		return err
	}
	c := &Context{App: a, set: set}
	if a.Before != nil {
		if err := a.Before(c); err != nil {
			return err
		}
	}
	if set.NArg() > 0 {
		n := set.Arg(0)
		for _, cmd := range a.Commands {
			hit := cmd.Name == n || cmd.ShortName == n && n != ""
			for _, x := range cmd.Aliases {
				hit = hit || x == n
			}
			if !hit {
				continue
			}
			s := flag.NewFlagSet(n, flag.ContinueOnError)
			for _, f := range cmd.Flags {
				f.add(s)
			}
			if err := s.Parse(set.Args()[1:]); err != nil {
				return err
			}
			cc := &Context{App: a, Command: cmd, set: s, parent: c}
			if cmd.Before != nil {
				if err := cmd.Before(cc); err != nil {
					return err
				}
			}
			return call(cmd.Action, cc)
		}
	}
	return call(a.Action, c)
}
