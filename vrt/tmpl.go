package vrt

import (
	"embed"
	"errors"
	"fmt"
	"io"
	"sort"
	"text/template"
	"text/template/parse"
)

// TemplateFuncMap stands in for template.FuncMap.
type TemplateFuncMap map[string]any

// Template stands in for template.Template.  The compiled code uses the real
// library.  The symbolic run parses the current template files with the
// library's parser and evaluates the trees with the interpreter below, which
// covers what the library documents for the constructs it knows; anything else
// makes the check inconclusive.
type Template struct {
	Name  string
	real  *template.Template
	funcs map[string]any
	trees map[string]*parse.Tree
}

// TemplateHook, if set, is called instead of executing a template.
var TemplateHook func(name string, data any) error

func TemplateNew(name string) *Template {
	t := &Template{Name: name, funcs: map[string]any{}, trees: map[string]*parse.Tree{}}
	if !Symbolic() {
		t.real = template.New(name)
	}
	return t
}

func TemplateMust(t *Template, err error) *Template {
	if err != nil {
		panic(err)
	}
	return t
}

func (t *Template) Funcs(m TemplateFuncMap) *Template {
	if !Symbolic() {
		t.real.Funcs(template.FuncMap(m))
		return t
	}
	for k, f := range m {
		t.funcs[k] = f
	}
	return t
}

// embedName and embedText give the i-th embedded file matching a pattern.
func embedName(pattern string, i int) string { return "" }
func embedText(pattern string, i int) string { return "" }

func (t *Template) ParseFS(fs embed.FS, pats ...string) (*Template, error) {
	if TemplateHook != nil {
		return t, nil
	}
	if !Symbolic() {
		_, err := t.real.ParseFS(fs, pats...)
		return t, err
	}
	for _, p := range pats {
		n := 0
		for embedName(p, n) != "" {
			if err := t.parse(embedName(p, n), embedText(p, n)); err != nil {
				return nil, err
			}
			n++
		}
		if n == 0 {
			return nil, errors.New("template: pattern matches no files: " + p)
		}
	}
	return t, nil
}

func (t *Template) Parse(s string) (*Template, error) {
	if TemplateHook != nil {
		return t, nil
	}
	if !Symbolic() {
		_, err := t.real.Parse(s)
		return t, err
	}
	return t, t.parse(t.Name, s)
}

var tmplBuiltins = map[string]any{"len": 0, "eq": 0, "ne": 0, "lt": 0, "le": 0, "gt": 0, "ge": 0, "and": 0, "or": 0, "not": 0, "print": 0, "printf": 0, "println": 0, "index": 0}

func (t *Template) parse(name, text string) error {
	trees, err := parse.Parse(name, text, "", "", t.funcs, tmplBuiltins)
	if err != nil {
		return err
	}
	for n, tree := range trees {
		t.trees[n] = tree
	}
	return nil
}

func (t *Template) Execute(w io.Writer, data any) error {
	return t.ExecuteTemplate(w, t.Name, data)
}

func (t *Template) ExecuteTemplate(w io.Writer, name string, data any) error {
	if f, ok := w.(*OsFile); ok && WriteHook != nil {
		if err := WriteHook(f.Ch); err != nil {
			return err
		}
	}
	if TemplateHook != nil {
		return TemplateHook(name, data)
	}
	if !Symbolic() {
		return t.real.ExecuteTemplate(w, name, data)
	}
	tree := t.trees[name]
	if tree == nil || tree.Root == nil {
		return errors.New("template: " + name + ": not defined")
	}
	s := &tmplState{t: t, w: w, vars: []tmplVar{{"$", data}}}
	s.walk(data, tree.Root)
	return s.err
}

type tmplVar struct {
	name string
	v    any
}

type tmplState struct {
	t    *Template
	w    io.Writer
	vars []tmplVar
	err  error
}

// Operations on values of any type; they exist in the symbolic run only.
// tmplField gives a field or the result of a method without parameters.
func tmplField(v any, name string) any { return nil }
func tmplHas(v any, name string) bool  { return false } // v is not nil and has the field
func tmplLen(v any) int                { return 0 }
func tmplAt(v any, i int) any          { return nil }
func tmplTruth(v any) bool             { return false }
func tmplDeref(v any) any              { return nil }

func (s *tmplState) fail(why string) {
	if s.err == nil {
		s.err = errors.New("template: " + why)
	}
}

func (s *tmplState) walk(dot any, node parse.Node) {
	if s.err != nil {
		return
	}
	switch n := node.(type) {
	case *parse.TextNode:
		s.write(string(n.Text))
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := s.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 && s.err == nil {
			s.print(v)
		}
	case *parse.IfNode:
		mark := len(s.vars)
		v := s.pipe(dot, n.Pipe)
		if s.err != nil {
			return
		}
		if tmplTruth(v) {
			s.walk(dot, n.List)
		} else if n.ElseList != nil {
			s.walk(dot, n.ElseList)
		}
		s.vars = s.vars[:mark]
	case *parse.WithNode:
		mark := len(s.vars)
		v := s.pipe(dot, n.Pipe)
		if s.err != nil {
			return
		}
		if tmplTruth(v) {
			s.walk(v, n.List)
		} else if n.ElseList != nil {
			s.walk(dot, n.ElseList)
		}
		s.vars = s.vars[:mark]
	case *parse.RangeNode:
		s.loop(dot, n)
	case *parse.ListNode:
		for _, m := range n.Nodes {
			s.walk(dot, m)
		}
	case *parse.TemplateNode:
		tree := s.t.trees[n.Name]
		if tree == nil {
			s.fail(n.Name + " not defined")
			return
		}
		var v any
		if n.Pipe != nil {
			v = s.pipe(dot, n.Pipe)
		}
		if s.err == nil {
			vars := s.vars
			s.vars = []tmplVar{{"$", v}}
			s.walk(v, tree.Root)
			s.vars = vars
		}
	default:
		Unsupported("template construct")
	}
}

func (s *tmplState) loop(dot any, n *parse.RangeNode) {
	mark := len(s.vars)
	decl := n.Pipe.Decl
	v := s.cmds(dot, n.Pipe)
	if s.err != nil {
		return
	}
	one := func(key, elem any) {
		if s.err != nil {
			return
		}
		if len(decl) == 1 {
			s.vars = append(s.vars, tmplVar{decl[0].Ident[0], elem})
		} else if len(decl) == 2 {
			s.vars = append(s.vars, tmplVar{decl[0].Ident[0], key}, tmplVar{decl[1].Ident[0], elem})
		}
		s.walk(elem, n.List)
		s.vars = s.vars[:mark]
	}
	some := false
	switch m := v.(type) {
	case map[string]int64:
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			some = true
			one(k, m[k])
		}
	case map[string]int:
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			some = true
			one(k, m[k])
		}
	case map[string]string:
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			some = true
			one(k, m[k])
		}
	case nil:
	default:
		for i := 0; i < tmplLen(v); i++ {
			some = true
			one(i, tmplAt(v, i))
		}
	}
	if !some && n.ElseList != nil {
		s.walk(dot, n.ElseList)
	}
	s.vars = s.vars[:mark]
}

// pipe evaluates a pipeline and does its declarations.
func (s *tmplState) pipe(dot any, p *parse.PipeNode) any {
	if p == nil {
		return nil
	}
	v := s.cmds(dot, p)
	for _, d := range p.Decl {
		if !p.IsAssign {
			s.vars = append(s.vars, tmplVar{d.Ident[0], v})
			continue
		}
		for i := len(s.vars) - 1; i >= 0; i-- {
			if s.vars[i].name == d.Ident[0] {
				s.vars[i].v = v
				break
			}
		}
	}
	return v
}

func (s *tmplState) cmds(dot any, p *parse.PipeNode) any {
	var v any
	for i, c := range p.Cmds {
		v = s.command(dot, c, v, i > 0)
	}
	return v
}

func (s *tmplState) command(dot any, c *parse.CommandNode, final any, hasFinal bool) any {
	if s.err != nil {
		return nil
	}
	if id, ok := c.Args[0].(*parse.IdentifierNode); ok {
		return s.call(dot, id.Ident, c.Args[1:], final, hasFinal)
	}
	if len(c.Args) > 1 || hasFinal {
		Unsupported("template method call with arguments")
	}
	return s.arg(dot, c.Args[0])
}

func (s *tmplState) arg(dot any, node parse.Node) any {
	switch n := node.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return nil
	case *parse.FieldNode:
		return s.chain(dot, n.Ident)
	case *parse.VariableNode:
		for i := len(s.vars) - 1; i >= 0; i-- {
			if s.vars[i].name == n.Ident[0] {
				return s.chain(s.vars[i].v, n.Ident[1:])
			}
		}
		s.fail("undefined variable " + n.Ident[0])
		return nil
	case *parse.PipeNode:
		return s.pipe(dot, n)
	case *parse.ChainNode:
		return s.chain(s.arg(dot, n.Node), n.Field)
	case *parse.IdentifierNode:
		return s.call(dot, n.Ident, nil, nil, false)
	case *parse.StringNode:
		return n.Text
	case *parse.BoolNode:
		return n.True
	case *parse.NumberNode:
		if n.IsInt {
			return int(n.Int64)
		}
	}
	Unsupported("template argument")
	return nil
}

func (s *tmplState) chain(v any, names []string) any {
	for _, name := range names {
		if s.err != nil {
			return nil
		}
		if !tmplHas(v, name) {
			s.fail("can't evaluate field " + name)
			return nil
		}
		v = tmplField(v, name)
	}
	return v
}

func tmplInt(v any) (int64, bool) {
	switch x := v.(type) {
	case int:
		return int64(x), true
	case int32:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}

// compare gives the sign of a-b for integers and strings.
func (s *tmplState) compare(a, b any) int {
	if x, ok := tmplInt(a); ok {
		if y, ok := tmplInt(b); ok {
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		}
	}
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if x < y {
				return -1
			} else if x > y {
				return 1
			}
			return 0
		}
	}
	Unsupported("comparison in template")
	return 0
}

func (s *tmplState) call(dot any, name string, nodes []parse.Node, final any, hasFinal bool) any {
	if name == "and" || name == "or" {
		var v any
		for i, n := range nodes {
			v = s.arg(dot, n)
			if s.err != nil || (i < len(nodes)-1 || hasFinal) && tmplTruth(v) == (name == "or") {
				return v
			}
		}
		if hasFinal {
			v = final
		}
		return v
	}
	var args []any
	for _, n := range nodes {
		args = append(args, s.arg(dot, n))
	}
	if hasFinal {
		args = append(args, final)
	}
	if s.err != nil {
		return nil
	}
	if f, ok := s.t.funcs[name]; ok {
		switch f := f.(type) {
		case func(...any) string:
			return f(args...)
		case func(string) string:
			if len(args) == 1 {
				if x, ok := args[0].(string); ok {
					return f(x)
				}
			}
		case func(any) string:
			if len(args) == 1 {
				return f(args[0])
			}
		case func() string:
			if len(args) == 0 {
				return f()
			}
		case func(string, ...any) string:
			if len(args) >= 1 {
				if x, ok := args[0].(string); ok {
					return f(x, args[1:]...)
				}
			}
		case func(any, any) string:
			if len(args) == 2 {
				return f(args[0], args[1])
			}
		case func(int64) string:
			if len(args) == 1 {
				if x, ok := args[0].(int64); ok {
					return f(x)
				}
			}
		case func(int, int) int:
			if len(args) == 2 {
				x, ok1 := args[0].(int)
				y, ok2 := args[1].(int)
				if ok1 && ok2 {
					return f(x, y)
				}
			}
		}
		Unsupported("function called by template")
	}
	switch name {
	case "len":
		if len(args) == 1 {
			return tmplLen(args[0])
		}
	case "not":
		if len(args) == 1 {
			return !tmplTruth(args[0])
		}
	case "eq":
		if len(args) >= 2 {
			for _, b := range args[1:] {
				if s.compare(args[0], b) == 0 {
					return true
				}
			}
			return false
		}
	case "ne":
		if len(args) == 2 {
			return s.compare(args[0], args[1]) != 0
		}
	case "lt":
		if len(args) == 2 {
			return s.compare(args[0], args[1]) < 0
		}
	case "le":
		if len(args) == 2 {
			return s.compare(args[0], args[1]) <= 0
		}
	case "gt":
		if len(args) == 2 {
			return s.compare(args[0], args[1]) > 0
		}
	case "ge":
		if len(args) == 2 {
			return s.compare(args[0], args[1]) >= 0
		}
	case "print":
		return fmt.Sprint(args...)
	case "println":
		return fmt.Sprintln(args...)
	case "printf":
		if len(args) >= 1 {
			if f, ok := args[0].(string); ok {
				return fmt.Sprintf(f, args[1:]...)
			}
		}
	case "index":
		if len(args) == 2 {
			if i, ok := tmplInt(args[1]); ok {
				if i < 0 || int(i) >= tmplLen(args[0]) {
					s.fail("index out of range")
					return nil
				}
				return tmplAt(args[0], int(i))
			}
		}
	}
	Unsupported("function " + name + " in template")
	return nil
}

func (s *tmplState) print(v any) {
	v = tmplDeref(v)
	if v == nil {
		s.write("<no value>")
		return
	}
	s.write(fmt.Sprint(v))
}

func (s *tmplState) write(text string) {
	if f, ok := s.w.(*OsFile); ok {
		Emit(f.Ch, text)
		return
	}
	if f, ok := s.w.(*BufWriter); ok {
		Emit(f.ch, text)
		return
	}
	io.WriteString(s.w, text)
}

// Unsupported makes the check inconclusive if it is reached.
func Unsupported(what string) { panic("unsupported: " + what) }
