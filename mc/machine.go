//go:build go1.22

package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
)

// machine is the reference printer: it executes the emitted text.
type machine struct {
	pos     Point
	known   bool    // position is defined (after the first full move)
	e       float64 // the E register
	f       float64
	tool    int
	fan     bool
	t1, t2  float64 // physical bed angles, moved only while T1/T2 is active
	fil     float64 // filament physically pushed (T0), mm
	layer   int     // last ;LAYER:n, -1 before
	section string
	g62     [2]float64
	g62set  bool
	moves   []move
	layers  []int
	rel     bool // G91
	relE    bool // M83
	other   []string
}

type move struct {
	from, to    Point
	dE          float64
	f           float64
	tool        int
	fan         bool
	layer       int
	section     string
	t1, t2      float64
	g62         [2]float64
	eBefore     float64
	filBefore   float64
	hasXY, hasZ bool
	hasE, hasF  bool
	g           int
	line        string
}

func newMachine() *machine { return &machine{layer: -1, known: true} }

func (m *machine) clone() *machine {
	c := *m
	c.moves = nil
	c.layers = nil
	c.other = nil
	return &c
}

// run executes the text; an unknown or malformed line is an error.
func (m *machine) run(text string) error {
	for ln, raw := range strings.Split(text, "\n") {
		if err := m.exec(raw); err != nil {
			return fmt.Errorf("line %d %q: %v", ln+1, raw, err)
		}
	}
	return nil
}

func (m *machine) exec(raw string) error {
	line := raw
	if i := strings.IndexByte(line, ';'); i >= 0 {
		c := strings.TrimSpace(line[i+1:])
		if i == 0 || strings.TrimSpace(line[:i]) == "" {
			if strings.HasPrefix(c, "LAYER:") {
				n, err := strconv.Atoi(strings.TrimSpace(c[6:]))
				if err != nil {
					return err
				}
				m.layer = n
				m.layers = append(m.layers, n)
				m.section = ""
			} else if strings.HasSuffix(c, "_PATHES") {
				m.section = strings.TrimSuffix(c, "_PATHES")
			}
			return nil
		}
		line = line[:i]
	}
	fs := strings.Fields(line)
	if len(fs) == 0 {
		return nil
	}
	arg := map[byte]float64{}
	if fs[0] != "M117" {
		for _, w := range fs[1:] {
			v, err := strconv.ParseFloat(w[1:], 64)
			if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
				return fmt.Errorf("bad word %q", w)
			}
			if _, dup := arg[w[0]]; dup {
				return fmt.Errorf("word %q repeated", w)
			}
			arg[w[0]] = v
		}
	}
	switch fs[0] {
	case "G0", "G1":
		mv := move{from: m.pos, to: m.pos, fan: m.fan, layer: m.layer, section: m.section, tool: m.tool, line: raw, eBefore: m.e, filBefore: m.fil, g62: m.g62}
		if fs[0] == "G1" {
			mv.g = 1
		}
		for k, v := range arg {
			switch k {
			case 'X', 'Y':
				mv.hasXY = true
			case 'Z':
				mv.hasZ = true
			case 'E', 'F':
			default:
				return fmt.Errorf("unknown axis %c", k)
			}
			_ = v
		}
		set := func(p *float64, k byte, rel bool) {
			if v, ok := arg[k]; ok {
				if rel {
					*p += v
				} else {
					*p = v
				}
			}
		}
		set(&mv.to.X, 'X', m.rel)
		set(&mv.to.Y, 'Y', m.rel)
		set(&mv.to.Z, 'Z', m.rel)
		if v, ok := arg['F']; ok {
			m.f = v
			mv.hasF = true
		}
		mv.f = m.f
		if v, ok := arg['E']; ok {
			mv.hasE = true
			if m.rel || m.relE {
				mv.dE = v
				m.e += v
			} else {
				mv.dE = v - m.e
				m.e = v
			}
			switch m.tool {
			case 0:
				m.fil += mv.dE
			case 1:
				m.t1 += mv.dE
			case 2:
				m.t2 += mv.dE
			}
		}
		mv.t1, mv.t2 = m.t1, m.t2
		m.pos = mv.to
		m.moves = append(m.moves, mv)
	case "G92":
		for k, v := range arg {
			if k != 'E' {
				return fmt.Errorf("G92 with %c", k)
			}
			m.e = v
		}
	case "G62":
		m.g62 = [2]float64{arg['X'], arg['Z']}
		m.g62set = true
	case "T0":
		m.tool = 0
	case "T1":
		m.tool = 1
	case "T2":
		m.tool = 2
	case "M106":
		m.fan = true
	case "M107":
		m.fan = false
	case "G90":
		m.rel, m.relE = false, false
	case "G91":
		m.rel = true
	case "M82":
		m.relE = false
	case "M83":
		m.relE = true
	case "G28":
		m.pos = Point{}
		m.other = append(m.other, raw)
	case "G21", "M84", "M190", "M109", "M104", "M140", "M117":
		m.other = append(m.other, raw)
	default:
		return fmt.Errorf("unknown command")
	}
	return nil
}

func render(g *gcode.Gcode) string {
	var b bytes.Buffer
	g.ToOutput(&b)
	return b.String()
}

// deposits: moves of tool 0 that push filament while the head moves.
func (m *machine) deposits() []move {
	var r []move
	for _, mv := range m.moves {
		if mv.tool == 0 && mv.dE > 0 && dist(mv.from, mv.to) > 0 {
			r = append(r, mv)
		}
	}
	return r
}

// partOf groups the printed material by bed pose and layer.
type printedLayer struct {
	index  int
	t1, t2 float64
	g62    [2]float64
	outer  []seg
	middle []seg
	inner  []seg
	fill   []seg
}

func (m *machine) printed() []printedLayer {
	var r []printedLayer
	for _, mv := range m.moves {
		if mv.tool != 0 || mv.layer < 0 || !mv.hasE || mv.section == "" {
			continue
		}
		if dist(mv.from, mv.to) == 0 {
			continue
		}
		if len(r) == 0 || r[len(r)-1].index != mv.layer {
			r = append(r, printedLayer{index: mv.layer, t1: mv.t1, t2: mv.t2, g62: mv.g62})
		}
		l := &r[len(r)-1]
		s := seg{mv.from, mv.to}
		switch mv.section {
		case "OUTER":
			l.outer = append(l.outer, s)
		case "MIDDLE":
			l.middle = append(l.middle, s)
		case "INNER":
			l.inner = append(l.inner, s)
		case "FILL":
			l.fill = append(l.fill, s)
		}
	}
	return r
}
