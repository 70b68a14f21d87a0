package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// Small effect-free functions are inlined into their callers, so that the
// merging of branches (mergeBranch) sees through a helper as if its statements
// stood at the call. Functions of scalars alone are left to the summaries.

const (
	inlineInstrs = 160 // of the callee
	inlineGrowth = 3000
)

// inlinable reports whether calls to fn are replaced by its body.
func (p *Prog) inlinable(c *Fn) bool {
	if c.noBody || c.hasDef || c.nfree > 0 || c.intr != nil || c.recover >= 0 || c.ninstr > inlineInstrs || len(c.blocks) > 40 || len(c.results) == 0 {
		return false
	}
	scalar := true
	for _, t := range c.params {
		if t.kind != KInt && t.kind != KBool {
			scalar = false
		}
	}
	reads := false
	for _, b := range c.blocks {
		if len(b.ins) == 0 {
			return false
		}
		for i := range b.ins {
			in := &b.ins[i]
			switch in.op {
			case opReturn:
			case opCallStatic:
				if !p.scalarCall(in) {
					return false
				}
			case opLoad, opGlobal, opLookup:
				reads = true
			default:
				if !in.pure {
					return false
				}
			}
		}
		if b.succs[0] < 0 && b.ins[len(b.ins)-1].op != opReturn {
			return false
		}
	}
	return !scalar || reads
}

func (p *Prog) scalarCall(in *Instr) bool {
	get := func(f *ssa.Function) *Fn {
		if p.inlining[f] || !promising(f) {
			return nil
		}
		return p.fnL(f)
	}
	g := get(in.fn)
	return g != nil && summarisable(g, 0, get)
}

// promising looks at the code of f before it is compiled.
func promising(f *ssa.Function) bool {
	if f.Blocks == nil || len(f.Blocks) > 40 || f.Signature.Results().Len() == 0 {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
		if n > 2*inlineInstrs {
			return false
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					return false
				}
			case *ssa.DebugRef, *ssa.BinOp, *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Extract, *ssa.Field, *ssa.FieldAddr,
				*ssa.Index, *ssa.IndexAddr, *ssa.Lookup, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Convert:
			case *ssa.Call:
				switch g := x.Call.Value.(type) {
				case *ssa.Builtin:
					if g.Name() != "len" {
						return false
					}
				case *ssa.Function:
				default:
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

// fnL is fn for callers that hold the lock.
func (p *Prog) fnL(f *ssa.Function) *Fn {
	if x, ok := p.fns.Load(f); ok {
		return x.(*Fn)
	}
	c := p.compile(f)
	p.fns.Store(f, c)
	return c
}

// inline replaces the calls to small effect-free functions in k.c.
func (k *compiler) inline() {
	c := k.c
	grown := 0
	for bi := 0; bi < len(c.blocks); bi++ {
		b := c.blocks[bi]
		for i := range b.ins {
			in := &b.ins[i]
			if in.op != opCallStatic || k.p.inlining[in.fn] || in.fn.Blocks == nil || in.fn.Parent() != nil {
				continue
			}
			if !promising(in.fn) {
				continue
			}
			g := k.p.fnL(in.fn)
			if g == c || grown+g.ninstr > inlineGrowth || !k.p.inlinable(g) || len(in.args) != g.nparams {
				continue
			}
			grown += g.ninstr
			k.inlineAt(b, i, g)
			break // the rest of the block is now a block of its own, still to come
		}
	}
}

func (k *compiler) inlineAt(b *Block, at int, g *Fn) {
	c := k.c
	call := b.ins[at]
	c.inl = append(append(c.inl, g), g.inl...)
	base := int32(c.nregs)
	c.nregs += g.nregs
	cb := int32(len(c.consts))
	c.consts = append(c.consts, g.consts...)
	mapR := func(r int32) int32 {
		if r >= 0 {
			return r + base
		}
		if r == minReg {
			return r
		}
		return r - cb
	}
	off := len(c.blocks)
	rest := &Block{idx: off + len(g.blocks), succs: b.succs, succEdge: b.succEdge, maybe: true, pure: true}
	rest.ins = append(rest.ins, b.ins[at+1:]...)
	b.ins = append([]Instr{}, b.ins[:at]...)
	for i := 0; i < g.nparams; i++ {
		b.ins = append(b.ins, Instr{op: opCopy, pure: true, dst: base + int32(i), a: call.args[i], pos: call.pos})
	}
	b.ins = append(b.ins, Instr{op: opJump, pure: true, pos: call.pos})
	b.succs = [2]int{off, -1}
	b.succEdge = [2]int{0, 0}
	// where the results go
	var res []int32
	if len(g.results) == 1 {
		res = []int32{call.dst}
	} else {
		for range g.results {
			res = append(res, k.newReg())
		}
		sub := func(blk *Block) {
			for i := range blk.ins {
				in := &blk.ins[i]
				if in.op == opExtract && in.a == call.dst {
					*in = Instr{op: opCopy, pure: true, dst: in.dst, a: res[in.n], pos: in.pos}
				}
			}
		}
		for _, blk := range c.blocks {
			sub(blk)
		}
		sub(rest)
	}
	rest.phiDst = res
	for _, gb := range g.blocks {
		nb := &Block{idx: off + gb.idx, pos: gb.pos, pure: true, maybe: true, loopHead: gb.loopHead, succs: [2]int{-1, -1}, succEdge: gb.succEdge}
		for i, s := range gb.succs {
			if s >= 0 {
				nb.succs[i] = s + off
			}
		}
		for _, d := range gb.phiDst {
			nb.phiDst = append(nb.phiDst, mapR(d))
		}
		for _, row := range gb.phiSrc {
			var r []int32
			for _, s := range row {
				r = append(r, mapR(s))
			}
			nb.phiSrc = append(nb.phiSrc, r)
		}
		if gb.idx == 0 && len(nb.phiSrc) == 0 {
			nb.phiSrc = [][]int32{nil}
		}
		for _, in := range gb.ins {
			if in.op == opReturn {
				var row []int32
				for _, r := range in.args {
					row = append(row, mapR(r))
				}
				rest.phiSrc = append(rest.phiSrc, row)
				nb.succs[0] = rest.idx
				nb.succEdge[0] = len(rest.phiSrc) - 1
				nb.ins = append(nb.ins, Instr{op: opJump, pure: true, pos: in.pos})
				continue
			}
			in.a, in.b, in.c = mapR(in.a), mapR(in.b), mapR(in.c)
			in.d = mapR(in.d)
			if in.dst >= 0 {
				in.dst += base
			}
			if in.args != nil {
				args := make([]int32, len(in.args))
				for i, r := range in.args {
					args[i] = mapR(r)
				}
				in.args = args
			}
			nb.ins = append(nb.ins, in)
		}
		c.blocks = append(c.blocks, nb)
	}
	c.blocks = append(c.blocks, rest)
	c.ninstr += g.ninstr
}

// purity recomputes which blocks are effect-free.
func (b *Block) purity() {
	b.pure, b.maybe = true, true
	for i := range b.ins {
		if !b.ins[i].pure {
			b.pure = false
			if b.ins[i].op != opCallStatic {
				b.maybe = false
			}
		}
	}
}
