// Package cobra is a stand-in for github.com/spf13/cobra in the symbolic
// executor: commands, sub commands and boolean or string flags as the real
// package treats them. The native replay uses the real package.
package cobra

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
)

type PositionalArgs func(cmd *Command, args []string) error

func NoArgs(cmd *Command, args []string) error {
	if len(args) > 0 {
		return fmt.Errorf("unknown command %q for %q", args[0], cmd.CommandPath())
	}
	return nil
}

func ArbitraryArgs(cmd *Command, args []string) error { return nil }

func MinimumNArgs(n int) PositionalArgs {
	return func(cmd *Command, args []string) error {
		if len(args) < n {
			return fmt.Errorf("requires at least %d arg(s), only received %d", n, len(args))
		}
		return nil
	}
}

type CompletionOptions struct {
	DisableDefaultCmd, DisableNoDescFlag, DisableDescriptions, HiddenDefaultCmd bool
}

type Command struct {
	Use, Short, Long, Example, Version, Deprecated, GroupID    string
	Aliases, SuggestFor, ValidArgs, ArgAliases                 []string
	Annotations                                                map[string]string
	Args                                                       PositionalArgs
	Run, PreRun, PostRun, PersistentPreRun, PersistentPostRun  func(cmd *Command, args []string)
	RunE, PreRunE, PostRunE, PersistentPreRunE                 func(cmd *Command, args []string) error
	PersistentPostRunE                                         func(cmd *Command, args []string) error
	SilenceErrors, SilenceUsage, DisableFlagParsing, Hidden    bool
	DisableAutoGenTag, DisableFlagsInUseLine, TraverseChildren bool
	DisableSuggestions                                         bool
	SuggestionsMinimumDistance                                 int
	CompletionOptions                                          CompletionOptions

	args     []string
	argsSet  bool
	out, err io.Writer
	parent   *Command
	cmds     []*Command
	flags    *FlagSet
	pflags   *FlagSet
	ctx      context.Context
}

func (c *Command) Name() string {
	if i := strings.IndexByte(c.Use, ' '); i >= 0 {
		return c.Use[:i]
	}
	return c.Use
}

func (c *Command) AddCommand(cs ...*Command) {
	for _, x := range cs {
		x.parent = c
		c.cmds = append(c.cmds, x)
	}
}

func (c *Command) Commands() []*Command      { return c.cmds }
func (c *Command) Parent() *Command          { return c.parent }
func (c *Command) HasParent() bool           { return c.parent != nil }
func (c *Command) HasSubCommands() bool      { return len(c.cmds) > 0 }
func (c *Command) Context() context.Context  { return c.ctx }
func (c *Command) SetOut(w io.Writer)        { c.out = w }
func (c *Command) SetErr(w io.Writer)        { c.err = w }
func (c *Command) SetOutput(w io.Writer)     { c.out, c.err = w, w }
func (c *Command) SetArgs(a []string)        { c.args, c.argsSet = a, true }
func (c *Command) InitDefaultVersionFlag()   {}
func (c *Command) InitDefaultHelpFlag()      {}
func (c *Command) Runnable() bool            { return c.Run != nil || c.RunE != nil }
func (c *Command) SetVersionTemplate(string) {}
func (c *Command) Root() *Command {
	for c.parent != nil {
		c = c.parent
	}
	return c
}

func (c *Command) CommandPath() string {
	if c.parent != nil {
		return c.parent.CommandPath() + " " + c.Name()
	}
	return c.Name()
}

func (c *Command) getOut(def io.Writer) io.Writer {
	for x := c; x != nil; x = x.parent {
		if x.out != nil {
			return x.out
		}
	}
	return def
}

func (c *Command) getErr(def io.Writer) io.Writer {
	for x := c; x != nil; x = x.parent {
		if x.err != nil {
			return x.err
		}
	}
	return def
}

func (c *Command) OutOrStdout() io.Writer { return c.getOut(os.Stdout) }
func (c *Command) OutOrStderr() io.Writer { return c.getOut(os.Stderr) }
func (c *Command) ErrOrStderr() io.Writer { return c.getErr(os.Stderr) }

func (c *Command) Print(i ...any)               { fmt.Fprint(c.OutOrStderr(), i...) }
func (c *Command) Println(i ...any)             { c.Print(fmt.Sprintln(i...)) }
func (c *Command) Printf(f string, i ...any)    { c.Print(fmt.Sprintf(f, i...)) }
func (c *Command) PrintErr(i ...any)            { fmt.Fprint(c.ErrOrStderr(), i...) }
func (c *Command) PrintErrln(i ...any)          { c.PrintErr(fmt.Sprintln(i...)) }
func (c *Command) PrintErrf(f string, i ...any) { c.PrintErr(fmt.Sprintf(f, i...)) }

func (c *Command) UsageString() string { return "Usage:\n  " + c.CommandPath() + " [flags]\n" }
func (c *Command) Usage() error        { c.Println(c.UsageString()); return nil }
func (c *Command) Help() error {
	fmt.Fprint(c.OutOrStdout(), c.UsageString())
	return nil
}

func (c *Command) Flags() *FlagSet {
	if c.flags == nil {
		c.flags = &FlagSet{}
	}
	return c.flags
}

func (c *Command) LocalFlags() *FlagSet { return c.Flags() }

func (c *Command) PersistentFlags() *FlagSet {
	if c.pflags == nil {
		c.pflags = &FlagSet{}
	}
	return c.pflags
}

func (c *Command) merge() {
	for x := c; x != nil; x = x.parent {
		if x.pflags != nil {
			for _, f := range x.pflags.list {
				if c.Flags().Lookup(f.Name) == nil {
					c.flags.list = append(c.flags.list, f)
				}
			}
		}
	}
	if c.Flags().Lookup("help") == nil {
		c.Flags().BoolP("help", "h", false, "")
	}
	if c.Version != "" && c.Flags().Lookup("version") == nil {
		if c.Flags().short('v') == nil {
			c.Flags().BoolP("version", "v", false, "")
		} else {
			c.Flags().Bool("version", false, "")
		}
	}
}

func (c *Command) strip(args []string) []string {
	c.merge()
	var out []string
	for len(args) > 0 {
		s := args[0]
		args = args[1:]
		if s == "--" {
			break
		}
		if strings.HasPrefix(s, "--") && !strings.Contains(s, "=") && !c.flags.noArg(s[2:]) ||
			strings.HasPrefix(s, "-") && !strings.HasPrefix(s, "--") && !strings.Contains(s, "=") && len(s) == 2 && !c.flags.noArgShort(s[1]) {
			if len(args) <= 1 {
				break
			}
			args = args[1:]
			continue
		}
		if s != "" && !strings.HasPrefix(s, "-") {
			out = append(out, s)
		}
	}
	return out
}

func (c *Command) find(args []string) (*Command, []string) {
	w := c.strip(args)
	if len(w) == 0 {
		return c, args
	}
	for _, x := range c.cmds {
		hit := x.Name() == w[0]
		for _, a := range x.Aliases {
			hit = hit || a == w[0]
		}
		if hit {
			var rest []string
			for i, a := range args {
				if a == w[0] {
					rest = append(append(rest, args[:i]...), args[i+1:]...)
					break
				}
			}
			return x.find(rest)
		}
	}
	return c, args
}

var errHelp = errors.New("pflag: help requested")

func (c *Command) Execute() error {
	_, err := c.ExecuteC()
	return err
}

func (c *Command) ExecuteContext(ctx context.Context) error {
	c.ctx = ctx
	return c.Execute()
}

func (c *Command) ExecuteC() (*Command, error) {
	if c.parent != nil {
		return c.Root().ExecuteC()
	}
	args := c.args
	if !c.argsSet {
		args = os.Args[1:]
	}
	cmd, rest := c.find(args)
	if cmd.Args == nil && cmd.parent == nil && len(cmd.cmds) > 0 {
		if w := cmd.strip(rest); len(w) > 0 {
			err := fmt.Errorf("unknown command %q for %q", w[0], cmd.CommandPath())
			if !c.SilenceErrors {
				c.PrintErrln("Error:", err.Error())
				c.PrintErrf("Run '%v --help' for usage.\n", c.CommandPath())
			}
			return c, err
		}
	}
	if cmd.ctx == nil {
		cmd.ctx = c.ctx
	}
	err := cmd.execute(rest)
	if err != nil {
		if err == errHelp {
			cmd.Help()
			return cmd, nil
		}
		if !cmd.SilenceErrors && !c.SilenceErrors {
			c.PrintErrln("Error:", err.Error())
		}
		if !cmd.SilenceUsage && !c.SilenceUsage {
			c.Println(cmd.UsageString())
		}
	}
	return cmd, err
}

func (c *Command) execute(a []string) error {
	c.merge()
	if !c.DisableFlagParsing {
		if err := c.flags.parse(a); err != nil {
			return err
		}
	} else {
		c.flags.args = a
	}
	if h, _ := c.flags.GetBool("help"); h {
		return errHelp
	}
	if c.Version != "" {
		if v, _ := c.flags.GetBool("version"); v {
			fmt.Fprintf(c.OutOrStdout(), "%s version %s\n", c.Name(), c.Version)
			return nil
		}
	}
	if !c.Runnable() {
		return errHelp
	}
	args := c.flags.args
	if c.Args != nil {
		if err := c.Args(c, args); err != nil {
			return err
		}
	}
	for p := c; p != nil; p = p.parent {
		if p.PersistentPreRunE != nil {
			if err := p.PersistentPreRunE(c, args); err != nil {
				return err
			}
			break
		} else if p.PersistentPreRun != nil {
			p.PersistentPreRun(c, args)
			break
		}
	}
	if c.PreRunE != nil {
		if err := c.PreRunE(c, args); err != nil {
			return err
		}
	} else if c.PreRun != nil {
		c.PreRun(c, args)
	}
	if c.RunE != nil {
		if err := c.RunE(c, args); err != nil {
			return err
		}
	} else {
		c.Run(c, args)
	}
	if c.PostRunE != nil {
		if err := c.PostRunE(c, args); err != nil {
			return err
		}
	} else if c.PostRun != nil {
		c.PostRun(c, args)
	}
	for p := c; p != nil; p = p.parent {
		if p.PersistentPostRunE != nil {
			if err := p.PersistentPostRunE(c, args); err != nil {
				return err
			}
			break
		} else if p.PersistentPostRun != nil {
			p.PersistentPostRun(c, args)
			break
		}
	}
	return nil
}

// Flag is a flag of type bool, string or int.
type Flag struct {
	Name, Shorthand, Usage string
	Changed                bool
	kind                   byte
	b                      *bool
	s                      *string
}

type FlagSet struct {
	list []*Flag
	args []string
}

func (f *FlagSet) Lookup(name string) *Flag {
	for _, x := range f.list {
		if x.Name == name {
			return x
		}
	}
	return nil
}

func (f *FlagSet) short(c byte) *Flag {
	for _, x := range f.list {
		if len(x.Shorthand) == 1 && x.Shorthand[0] == c {
			return x
		}
	}
	return nil
}

func (f *FlagSet) noArg(name string) bool {
	x := f.Lookup(name)
	return x != nil && x.kind == 'b'
}

func (f *FlagSet) noArgShort(c byte) bool {
	x := f.short(c)
	return x != nil && x.kind == 'b'
}

func (f *FlagSet) Args() []string { return f.args }
func (f *FlagSet) NArg() int      { return len(f.args) }
func (f *FlagSet) Changed(name string) bool {
	x := f.Lookup(name)
	return x != nil && x.Changed
}

func (f *FlagSet) BoolVarP(p *bool, name, short string, value bool, usage string) {
	*p = value
	f.list = append(f.list, &Flag{Name: name, Shorthand: short, Usage: usage, kind: 'b', b: p})
}

func (f *FlagSet) BoolVar(p *bool, name string, value bool, usage string) {
	f.BoolVarP(p, name, "", value, usage)
}

func (f *FlagSet) BoolP(name, short string, value bool, usage string) *bool {
	p := new(bool)
	f.BoolVarP(p, name, short, value, usage)
	return p
}

func (f *FlagSet) Bool(name string, value bool, usage string) *bool {
	return f.BoolP(name, "", value, usage)
}

func (f *FlagSet) StringVarP(p *string, name, short, value, usage string) {
	*p = value
	f.list = append(f.list, &Flag{Name: name, Shorthand: short, Usage: usage, kind: 's', s: p})
}

func (f *FlagSet) StringP(name, short, value, usage string) *string {
	p := new(string)
	f.StringVarP(p, name, short, value, usage)
	return p
}

func (f *FlagSet) String(name, value, usage string) *string { return f.StringP(name, "", value, usage) }

func (f *FlagSet) GetBool(name string) (bool, error) {
	x := f.Lookup(name)
	if x == nil {
		return false, fmt.Errorf("flag accessed but not defined: %s", name)
	}
	if x.kind != 'b' {
		return false, fmt.Errorf("trying to get bool value of flag of type string")
	}
	return *x.b, nil
}

func (f *FlagSet) GetString(name string) (string, error) {
	x := f.Lookup(name)
	if x == nil {
		return "", fmt.Errorf("flag accessed but not defined: %s", name)
	}
	if x.kind != 's' {
		return "", fmt.Errorf("trying to get string value of flag of type bool")
	}
	return *x.s, nil
}

func (f *FlagSet) set(x *Flag, v string) error {
	x.Changed = true
	if x.kind == 's' {
		*x.s = v
		return nil
	}
	switch v {
	case "1", "t", "T", "true", "TRUE", "True":
		*x.b = true
	case "0", "f", "F", "false", "FALSE", "False":
		*x.b = false
	default:
		n := "--" + x.Name
		if x.Shorthand != "" {
			n = "-" + x.Shorthand + ", " + n
		}
		return fmt.Errorf("invalid argument %q for %q flag: strconv.ParseBool: parsing %q: invalid syntax", v, n, v)
	}
	return nil
}

func (f *FlagSet) parse(args []string) error {
	f.args = nil
	for len(args) > 0 {
		s := args[0]
		args = args[1:]
		if len(s) < 2 || s[0] != '-' {
			f.args = append(f.args, s)
			continue
		}
		if s[1] == '-' {
			if len(s) == 2 {
				f.args = append(f.args, args...)
				break
			}
			name, v, has := s[2:], "", false
			if i := strings.IndexByte(name, '='); i >= 0 {
				name, v, has = name[:i], name[i+1:], true
			}
			if name == "" || name[0] == '-' {
				return fmt.Errorf("bad flag syntax: %s", s)
			}
			x := f.Lookup(name)
			if x == nil {
				return fmt.Errorf("unknown flag: --%s", name)
			}
			if !has {
				if x.kind == 'b' {
					v = "true"
				} else if len(args) > 0 {
					v = args[0]
					args = args[1:]
				} else {
					return fmt.Errorf("flag needs an argument: --%s", name)
				}
			}
			if err := f.set(x, v); err != nil {
				return err
			}
			continue
		}
		for sh := s[1:]; len(sh) > 0; {
			x := f.short(sh[0])
			if x == nil {
				return fmt.Errorf("unknown shorthand flag: %q in -%s", sh[0], sh)
			}
			v := ""
			switch {
			case len(sh) > 2 && sh[1] == '=':
				v = sh[2:]
				sh = ""
			case x.kind == 'b':
				v = "true"
				sh = sh[1:]
			case len(sh) > 1:
				v = sh[1:]
				sh = ""
			case len(args) > 0:
				v = args[0]
				args = args[1:]
				sh = ""
			default:
				return fmt.Errorf("flag needs an argument: %q in -%s", sh[0], sh)
			}
			if err := f.set(x, v); err != nil {
				return err
			}
		}
	}
	return nil
}
