package checks

import (
	"fmt"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- DOT

type dotNode struct {
	id    string
	attrs map[string]string
}

type dotEdge struct {
	from, to string
	attrs    map[string]string
}

type dotGraph struct {
	nodes map[string]*dotNode
	order []string
	edges []dotEdge
}

type dotTok struct {
	kind byte // i: identifier, q: quoted, or the character; e: end; -: edge operator
	s    string
}

func dotLex(in string) ([]dotTok, error) {
	var ret []dotTok
	for i := 0; i < len(in); {
		c := in[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case strings.IndexByte("{}[];,=", c) >= 0:
			ret = append(ret, dotTok{c, string(c)})
			i++
		case c == '-' && i+1 < len(in) && (in[i+1] == '-' || in[i+1] == '>'):
			ret = append(ret, dotTok{'-', in[i : i+2]})
			i += 2
		case c == '"':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(in) {
					return nil, fmt.Errorf("unterminated string at byte %d: %q", i, clip(in[i:]))
				}
				if in[j] == '"' {
					break
				}
				if in[j] == '\\' && j+1 < len(in) {
					if in[j+1] == '"' {
						b.WriteByte('"')
					} else {
						b.WriteByte('\\')
						b.WriteByte(in[j+1])
					}
					j += 2
					continue
				}
				b.WriteByte(in[j])
				j++
			}
			ret = append(ret, dotTok{'q', b.String()})
			i = j + 1
		case c == '_' || c == '.' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80:
			j := i
			for j < len(in) && (in[j] == '_' || in[j] == '.' || j == i && in[j] == '-' || in[j] >= '0' && in[j] <= '9' || in[j] >= 'a' && in[j] <= 'z' || in[j] >= 'A' && in[j] <= 'Z' || in[j] >= 0x80) {
				j++
			}
			ret = append(ret, dotTok{'i', in[i:j]})
			i = j
		default:
			return nil, fmt.Errorf("unexpected %q at byte %d", c, i)
		}
	}
	return append(ret, dotTok{'e', ""}), nil
}

// escString undoes the escapes of a label.
func escString(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i == len(s) {
			return "", fmt.Errorf("label %q ends with a backslash", s)
		}
		switch s[i] {
		case '\\':
			b.WriteByte('\\')
		case 'n':
			b.WriteByte('\n')
		default:
			return "", fmt.Errorf("label %q has the escape \\%c", s, s[i])
		}
	}
	return b.String(), nil
}

func parseDot(in string) (*dotGraph, error) {
	toks, err := dotLex(in)
	if err != nil {
		return nil, err
	}
	g := &dotGraph{nodes: map[string]*dotNode{}}
	p := 0
	isID := func() bool { return toks[p].kind == 'i' || toks[p].kind == 'q' }
	if toks[p].s == "strict" {
		p++
	}
	if toks[p].s != "graph" && toks[p].s != "digraph" {
		return nil, fmt.Errorf("does not start with graph: %q", toks[p].s)
	}
	p++
	if isID() {
		p++
	}
	if toks[p].kind != '{' {
		return nil, fmt.Errorf("no {")
	}
	p++
	attrs := func() (map[string]string, error) {
		m := map[string]string{}
		for toks[p].kind == '[' {
			p++
			for toks[p].kind != ']' {
				if !isID() {
					return nil, fmt.Errorf("attribute name expected, found %q", toks[p].s)
				}
				k := toks[p].s
				p++
				if toks[p].kind != '=' {
					return nil, fmt.Errorf("= expected after attribute %q, found %q", k, toks[p].s)
				}
				p++
				if !isID() {
					return nil, fmt.Errorf("value expected for attribute %q, found %q", k, toks[p].s)
				}
				v := toks[p].s
				if k == "label" {
					if v, err = escString(v); err != nil {
						return nil, err
					}
				}
				m[k] = v
				p++
				if toks[p].kind == ',' || toks[p].kind == ';' {
					p++
				}
			}
			p++
		}
		return m, nil
	}
	for toks[p].kind != '}' {
		if toks[p].kind == ';' {
			p++
			continue
		}
		if !isID() {
			return nil, fmt.Errorf("statement expected, found %q", toks[p].s)
		}
		id, quoted := toks[p].s, toks[p].kind == 'q'
		p++
		switch {
		case toks[p].kind == '=':
			p++
			if !isID() {
				return nil, fmt.Errorf("value expected after %s=", id)
			}
			p++
		case !quoted && (id == "graph" || id == "node" || id == "edge"):
			if _, err := attrs(); err != nil {
				return nil, err
			}
		case toks[p].kind == '-':
			ids := []string{id}
			for toks[p].kind == '-' {
				p++
				if !isID() {
					return nil, fmt.Errorf("node expected after edge operator, found %q", toks[p].s)
				}
				ids = append(ids, toks[p].s)
				p++
			}
			a, err := attrs()
			if err != nil {
				return nil, err
			}
			for i := 0; i+1 < len(ids); i++ {
				g.edges = append(g.edges, dotEdge{ids[i], ids[i+1], a})
			}
		default:
			a, err := attrs()
			if err != nil {
				return nil, err
			}
			if nd, ok := g.nodes[id]; ok {
				for k, v := range a {
					nd.attrs[k] = v
				}
				break
			}
			g.nodes[id] = &dotNode{id, a}
			g.order = append(g.order, id)
		}
	}
	p++
	if toks[p].kind != 'e' {
		return nil, fmt.Errorf("text after the closing brace: %q", toks[p].s)
	}
	return g, nil
}

// canonDot is the graph without node identifiers and order.
func canonDot(in string) string {
	g, err := parseDot(in)
	if err != nil {
		return "not DOT: " + err.Error()
	}
	var ret []string
	attr := func(m map[string]string) string {
		var ks []string
		for k, v := range m {
			ks = append(ks, fmt.Sprintf("%s=%q", k, v))
		}
		sort.Strings(ks)
		return strings.Join(ks, " ")
	}
	for _, id := range g.order {
		ret = append(ret, "node "+attr(g.nodes[id].attrs))
	}
	for _, e := range g.edges {
		a, b := g.nodes[e.from], g.nodes[e.to]
		la, lb := "?", "?"
		if a != nil {
			la = attr(a.attrs)
		}
		if b != nil {
			lb = attr(b.attrs)
		}
		ret = append(ret, fmt.Sprintf("edge (%s) (%s) %s", la, lb, attr(e.attrs)))
	}
	sort.Strings(ret)
	return strings.Join(ret, "\n")
}
