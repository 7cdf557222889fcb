"""Hand-written part of DESIGN.md's per-property sections: how each is decided, against what oracle, and what stays outside."""
P = {
'C01': ("Program text with symbolic characters is read, parsed and evaluated by the real reader and engine. The oracle is an independent reading of the YAML 1.2 core schema (integers, floats, keywords, quoting, folding, escapes) and trees that are built together with their text in block and flow style.",
 "YAML 1.1 extras that the reader accepts (1_000, 0b11, 0X1F); floats beyond a double's range; complex keys (an error); U+0085, U+2028 and U+2029 count as line breaks."),
'C02': ("The operators are called on arbitrary 64-bit integers; the oracle is the same fold in Go's two's-complement arithmetic, as bit-vector terms that z3 compares.",
 "Products of many arbitrary factors and long quotients exceed the solver: those are bounded as stated."),
'C03': ("The operators are called on arbitrary integers and IEEE doubles. The oracle compares exactly: a double below 2^63 is split in its integer part and rest. Laws (trichotomy, transitivity, symmetry) are asserted over the operators themselves.",
 "NaN is only required to be unordered."),
'C04': ("Truth of an arbitrary value of every kind is asked through every construct that uses it; if's other branch is an expression that would fail or define something.", "Operators' arguments are all evaluated (&& and || do not short-circuit, as documented)."),
'C05': ("A panic on any path is a violation in every harness of every property; here every registered operator and special form is called with arguments of every kind and shape, and the results are rendered and converted.", "Programs that recurse or include themselves without end (stack exhaustion)."),
'C06': ("Small programs are generated as syntax trees together with the value an independent interpreter with lexical scope gives them; names are drawn from few letters so that every shadowing occurs.", "Extra elements in a lambda after its body are ignored by yisp."),
'C07': ("A program is a context with one hole: with a working expression in it the run must succeed, with a failing one it must return an error and no output.", ""),
'C08': ("Types are described by typemodel.Spec, which renders the description for the real schema operator and decides acceptance itself; bounds are compared exactly.", "Types without 'type' and 'number' are unknown types; multipleOf takes integers; string lengths are counted in valid UTF-8."),
'C09': ("The same model completes a value with the defaults of its type; the result of the cast must be that value, keep its place in the output and survive a second cast.", "A default of null counts as none."),
'C10': ("Structural equality of types is decided by the model; functions with every mix of annotated parameters are matched with function types, and called.", "Return types are not checked when a function is called (documented)."),
'C11': ("Lists of arbitrary elements against Go slices.", ""),
'C12': ("Maps with arbitrary keys against slices of pairs; an existing key keeps its place.", ""),
'C13': ("maps.merge, merge keys and merges of typed maps against mergemodel (written from the property's text).", "Only the type of the right operand decides list strategies; strategies below additionalProperties or beside a $ref are not used."),
'C14': ("Every operator is called on values whose parts are shared; a deep copy taken before is compared afterwards, whether or not the call failed.", "maps.patch's target (documented); k8s.patch targets are covered."),
'C15': ("One operation or sequences of them against jpatch, a model of RFC 6901/6902 on plain trees.", "The whole document as target; targets in which one value occurs twice through an alias (modified in place, documented)."),
'C16': ("The operation written out once for each match, by the same model.", "Aliased targets, as in C15."),
'C17': ("The identity is compared field by field by the harness, the merge by mergemodel.", ""),
'C18': ("Byte-wise models of the string functions. Regular-expression free; the digest function is the standard one on both sides.", "Case mapping of non-ASCII letters beyond the listed ones; format verbs beyond the listed ones."),
'C19': ("Printed text is read back by the real reader (which C01 decides) and, where a scalar stands alone, by an independent reading of the scalar; yaml.marshal likewise.", "Functions and types have no data; `=` is printed plain (YAML 1.1 only)."),
'C20': ("Any panic, out-of-range access or path beyond the step bound is a violation. Every byte is symbolic; the reader's own branches split the input space.", "Inputs longer than the bounds, except at the buffer boundaries, which are placed explicitly."),
'C21': ("JSON against a reader written from RFC 8259; YAML data against the same text inside a program, and anchors and merge keys against built values.", "Aliases as keys to non-strings are errors; `<<` is positional in programs while in data files own keys win."),
'C22': ("Everything is evaluated twice in one path: with maps iterated in insertion order, and with the iteration order of the runtime as symbolic permutation (first iterations) or reversed (all).", "Goroutine schedules: yisp has none."),
'C23': ("Streams are built together with the list of documents they must give.", "Splicing below the top level (documented as plain lists)."),
'C24': ("os/exec is replaced by a recorder, natively too; standard input is arbitrary text.", "The operating system's process start."),
'C25': ("As C24; the oracle for `*` patterns is a recursive matcher; the executor has its own NFA for the regular expression the code builds.", "`*` does not match line breaks."),
'C26': ("A model file system (natively: a scratch directory) with files whose content tells them apart.", "Remote files; symbolic links; files.read of an absolute path is joined to the directory (as implemented)."),
'C27': ("A cache of types, each asking for a field of its own, tells which type was used.", "apiVersion with more than one slash; group, version or kind with `_`; a `!t` cast replaces a manifest's type."),
'C28': ("Expressions that fail at a marked place in contexts around them: the mark gives line and column.", "Columns behind multi-byte characters; errors of the YAML reader itself have lines only."),
'C29': ("The real krm command runs on standard input with resource lists; the documents printed are compared with the items.", "Map keys of items are sorted (documented); a failing function panics (exit status 2)."),
'C30': ("The same program with and without the option, compared after reading both outputs back.", "The text of the comments, but for C28's positions."),
'C31': ("The real build command (cobra) runs in the executor with arguments, files and standard input; exit status and output are compared with the engine's documents. JSON is read by the harness' own reader.", "Terminal colours."),
'C32': ("The real cache-kube-schemas and build commands run one after another; kubectl is a recorder with an arbitrary answer.", "Groups, versions or kinds with `_` or `/`; JSON numbers above 2^53 in schemas; concurrent runs and crashes between writes (the cache is not written atomically)."),
}
