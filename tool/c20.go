package main

// C20: metadata decoding never crashes, whatever the stored bytes are.

func init() {
	register(&Check{
		ID:    "C20",
		Title: "metadata decoders are total",
		Rules: "Every index, slice, fixed-width read, make, division, unchecked type assertion and explicit panic that the dataflow reaches from the metadata decoders (UnmarshalBinary in the index-file package) and from the page accessors that fetch metadata bytes, with the input bytes and their length unconstrained, must be provably in range.",
		Trust: []string{"Go type checker and go/ssa construction", "binary.Uvarint never reads past its argument", "a successful Read fills the buffer it was given only up to its length"},
		Run: func(c *Ctx) {
			g := c.Prog("", "")
			var roots []*Func
			roots = append(roots, g.methodsNamed("UnmarshalBinary", "appendable")...)
			for _, n := range []string{"Metadata", "UnmarshalMetadata"} {
				roots = append(roots, g.methodsNamed(n, "linkedpage")...)
			}
			for _, n := range []string{"Metadata", "IndexFieldNames", "FindOrCreateIndex"} {
				roots = append(roots, g.methodsNamed(n, "appendable")...)
			}
			if f := g.function("appendable", "NewIndexFile"); f != nil {
				roots = append(roots, f)
			}
			for _, f := range roots {
				c.Fn(f)
				seen := map[*Instr]string{}
				cl := &Client{Inline: func(fn *Func) bool {
					return fn.Pkg == "appendable" || !fn.Exported && (fn.Pkg == "linkedpage") || fn.Pkg == "encoding"
				}}
				cl.OnBounds = boundsHook(c, "in-range", f.Name, seen)
				cl.OnPanic = func(e *Engine, st *State, in *Instr) {
					if e.dry == 0 && st.facts.consistent() {
						c.Obl("in-range", f.Name+": panic in "+e.stack[len(e.stack)-1].Name, false, in.Pos, "a stored metadata value can make this panic")
					}
				}
				e := newEngine(g, cl)
				e.Run(f, symArgs(f), nil, newState())
				c.Problems(e, f.Name)
			}
			c.Min("in-range", 12)
		},
	})
}
