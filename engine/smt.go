package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one SMT solver process over a pipe (SMT-LIB 2, push/pop).
type Solver struct {
	cmdline []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	nvars   int
	ndef    int
	queries int64
	sat     int64
	unsat   int64
	unknown int64
	dur     time.Duration
	broken  bool
}

func newSolver(cmdline ...string) *Solver { return &Solver{cmdline: cmdline} }

func (s *Solver) start() error {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.nvars = 0
	s.ndef = 0
	if strings.Contains(s.cmdline[0], "cvc5") {
		s.in.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	} else {
		s.in.WriteString("(set-option :produce-models true)\n(set-option :timeout 10000)\n(set-logic QF_BV)\n")
	}
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func bvc(w uint8, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite"}

// ref returns the text naming t, emitting definitions (at level 0) as needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return bvc(t.w, t.k)
	case OVar:
		s.needVars(int(t.k) + 1)
		return fmt.Sprintf("v%d", t.k)
	}
	if s.defined[t.id] {
		return fmt.Sprintf("t%d", t.id)
	}
	var body string
	switch t.op {
	case OUF:
		fmt.Fprintf(s.in, "(declare-const t%d (_ BitVec %d))\n", t.id, t.w)
		s.defined[t.id] = true
		s.ndef++
		return fmt.Sprintf("t%d", t.id)
	case OTable:
		body = s.tableText(t)
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.ref(t.a))
	default:
		var sb strings.Builder
		sb.WriteByte('(')
		sb.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteByte(' ')
				sb.WriteString(s.ref(x))
			}
		}
		sb.WriteByte(')')
		body = sb.String()
	}
	sort := "Bool"
	if t.w != 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sort, body)
	s.defined[t.id] = true
	s.ndef++
	return fmt.Sprintf("t%d", t.id)
}

func (s *Solver) needVars(n int) {
	for s.nvars < n {
		fmt.Fprintf(s.in, "(declare-const v%d (_ BitVec 8))\n", s.nvars)
		s.nvars++
	}
}

func rangeCond(v string, lo, hi int) string {
	switch {
	case lo == hi:
		return fmt.Sprintf("(= %s (_ bv%d 8))", v, lo)
	case lo == 0:
		return fmt.Sprintf("(bvule %s (_ bv%d 8))", v, hi)
	case hi == 255:
		return fmt.Sprintf("(bvuge %s (_ bv%d 8))", v, lo)
	}
	return fmt.Sprintf("(and (bvuge %s (_ bv%d 8)) (bvule %s (_ bv%d 8)))", v, lo, v, hi)
}

func (s *Solver) tableText(t *Term) string {
	s.needVars(int(t.v) + 1)
	v := fmt.Sprintf("v%d", t.v)
	type rg struct {
		lo, hi int
		k      uint64
	}
	var rs []rg
	for i := 0; i < 256; i++ {
		if len(rs) > 0 && rs[len(rs)-1].k == t.vec[i] {
			rs[len(rs)-1].hi = i
		} else {
			rs = append(rs, rg{i, i, t.vec[i]})
		}
	}
	if t.w == 0 {
		var parts []string
		for _, r := range rs {
			if r.k != 0 {
				parts = append(parts, rangeCond(v, r.lo, r.hi))
			}
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(or " + strings.Join(parts, " ") + ")"
	}
	out := bvc(t.w, rs[len(rs)-1].k)
	for i := len(rs) - 2; i >= 0; i-- {
		out = fmt.Sprintf("(ite (bvule %s (_ bv%d 8)) %s %s)", v, rs[i].hi, bvc(t.w, rs[i].k), out)
	}
	return out
}

// check asserts all terms and returns "sat", "unsat" or "unknown"; on sat with
// nvars > 0 it also returns the values of variables 0..nvars-1.
func (s *Solver) check(ts []*Term, nvars int) (string, []byte) {
	if s.broken {
		return "unknown", nil
	}
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	if s.cmd != nil && s.ndef > 20000 {
		s.stop()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.broken = true
			return "unknown", nil
		}
	}
	s.queries++
	refs := make([]string, len(ts))
	for i, t := range ts {
		refs[i] = s.ref(t)
	}
	s.needVars(nvars)
	s.in.WriteString("(push 1)\n")
	for _, r := range refs {
		s.in.WriteString("(assert ")
		s.in.WriteString(r)
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.stop()
		s.unknown++
		return "unknown", nil
	}
	res, err := s.out.ReadString('\n')
	res = strings.TrimSpace(res)
	if err != nil || (res != "sat" && res != "unsat") {
		// anything else (timeout, "(error ...") is inconclusive; restart the process
		s.unknown++
		if os.Getenv("VENGINE_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "solver said %q %v\n", res, err)
		}
		s.stop()
		return "unknown", nil
	}
	var model []byte
	if res == "sat" {
		s.sat++
		if nvars > 0 {
			s.in.WriteString("(get-value (")
			for i := 0; i < nvars; i++ {
				fmt.Fprintf(s.in, " v%d", i)
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt := s.readSexp()
			model = make([]byte, nvars)
			if !parseModel(txt, model) {
				if os.Getenv("VENGINE_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "model %q\n", txt)
				}
				s.stop()
				s.unknown++
				return "unknown", nil
			}
		}
	} else {
		s.unsat++
	}
	s.in.WriteString("(pop 1)\n")
	return res, model
}

// checkBatch asks whether some item has an assignment that satisfies its path
// condition and falsifies one of its equalities.
func (s *Solver) checkBatch(items []batchItem) string {
	if s.broken {
		return "unknown"
	}
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	if s.cmd != nil && s.ndef > 20000 {
		s.stop()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.broken = true
			return "unknown"
		}
	}
	s.queries++
	var sb strings.Builder
	sb.WriteString("(assert (or false")
	for _, it := range items {
		sb.WriteString("\n(and true")
		for _, t := range it.pc {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(t))
		}
		sb.WriteString(" (or false")
		for _, t := range it.raw {
			r := s.ref(t)
			fmt.Fprintf(&sb, " (not (= %s %s))", r, r)
		}
		sb.WriteString("))")
	}
	sb.WriteString("))\n(check-sat)\n(pop 1)\n")
	s.in.WriteString("(push 1)\n")
	s.in.WriteString(sb.String())
	if err := s.in.Flush(); err != nil {
		s.stop()
		s.unknown++
		return "unknown"
	}
	res, err := s.out.ReadString('\n')
	res = strings.TrimSpace(res)
	switch {
	case err == nil && res == "unsat":
		s.unsat++
	case err == nil && res == "sat":
		s.sat++
	default:
		s.unknown++
		s.stop()
		return "unknown"
	}
	return res
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				s.out.ReadString('\n')
				return sb.String()
			}
		}
	}
}

func parseModel(txt string, model []byte) bool {
	if strings.Contains(txt, "error") {
		return false
	}
	n := 0
	for i := 0; i+1 < len(txt); i++ {
		if txt[i] == '(' && txt[i+1] == 'v' {
			var id int
			var val string
			if _, err := fmt.Sscanf(txt[i+1:], "v%d %s", &id, &val); err != nil {
				return false
			}
			var x uint64
			val = strings.TrimRight(val, ")")
			if strings.HasPrefix(val, "#x") {
				fmt.Sscanf(val[2:], "%x", &x)
			} else if strings.HasPrefix(val, "#b") {
				fmt.Sscanf(val[2:], "%b", &x)
			} else {
				return false
			}
			if id < len(model) {
				model[id] = byte(x)
				n++
			}
		}
	}
	return n >= len(model)
}
