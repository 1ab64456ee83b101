M.update({
 'scanners whose source was stripped': ('C17', 'Position() and Context() of a stripped scanner panicked, slices of it were wrong'),
 'writing out the scanner of nothing': ('C17', 'printing the scanner of nothing gave %!v(PANIC=...)'),
})
M['parse errors report the text at which'] = ('C18', 'a -> "a" a on "aa": "a" reported as expected at "aa"')
M.update({
 "parse errors don't show memory addresses": ('C20', 'the report of a term that could not be parsed printed functions and pointers (0xc000...), different in every run'),
 'views of ASTs list the parts of a node in a fixed order': ('C21', 'the view of an AST with several names in a node depended on the map order'),
 'reports of differences are in a fixed order': ('C21', 'the difference of two grammars or nodes came out in map order'),
 'compiling a grammar leaves its scoped grammars alone': ('C20', 'compiling `a -> b { b -> "x"; } .wrapRE -> ...` added the outer wrapRE to the scoped grammar, so that the grammar written out afterwards differed'),
 'generating code in several goroutines': ('C19', 'a package-level cache of types was written without a lock: fatal error: concurrent map writes'),
})
M.update({
 "generated code for text that raw strings can't hold": ('C22', 'gen for a -> "`"; wrote code that does not compile'),
 'generated code for bounded repetitions': ('C22', 'gen lost the bounds of a -> "x"{2,3};'),
 'generated types of named rules in scopes': ('C22', 'the code for named rules in nested scopes used types that do not exist'),
 'generated code for start rules with unusual names': ('C22', 'the code for start rules such as "a.b" did not compile'),
 'generated types of rules without parts': ('C22', 'the code for rules such as a -> (); used types that do not exist'),
 'generated types of stack references below names': ('C22', 'the code for a -> n=(@ "x") > "y"; used types that do not exist'),
 'generated types of rules with several references to one name': ('C22', 'the code for rules with %x twice declared a method twice'),
 'stopping generated walkers': ('C23', 'NodeExiter from the call-back of a leaf ended the walk of its parent, Aborter never stopped a walk'),
 'generated accessors of named references': ('C23', 'a -> k=r; OneK() gave a node whose accessors found nothing, as it was one level too high'),
 'generated accessors of tokens beside repeated parts': ('C23', 'OneToken() panicked on nodes with nothing but a repeated part'),
 'generated accessors of tokens that follow tokens': ('C23', 'a -> n=("a" "b"); had no AllToken, so that "b" could not be got at'),
 'generated accessors of tokens and names beside choices': ('C23', 'a -> "x" ("y" | "z"); a -> (r | "u") (r | "v"); had no AllToken, AllR'),
 'generated walkers of stacks that refer to themselves by name': ('C23', 'a -> @:op="+" > "(" a ")" | "a"; the walker visited every node twice'),
})
M.update({
 "commands report output that can't be written": ('C24', 'wbnf test --print > /dev/full succeeded, and gen left half a file behind when the device was full'),
 'generated code for files with line breaks in their names': ('C24', 'gen --grammar of a file with a line break in its name wrote code that does not compile'),
 'differences between external references, and of defaults of back-references': ('C26', 'Terms(%%x, %%y) and Terms(%x="a", %x="b") were equal, Terms of external references panicked'),
 'differences between the leaves of nodes': ('C26', 'Nodes of trees that differ in a leaf (a text, a missing separator) were equal or panicked'),
})
M.update({
 'rank tree items whose text starts with a number out of range': ('C27', 'gotree SortItems panicked on the items "x" and "99999999999999999999"'),
})
M.update({
 'ASTs with empty lists only equal those with the same lists': ('C28', 'ast.Branch{"a": ast.Many{}}.ContentEquals(ast.Branch{"b": ...}) was true'),
})
M.update({
 'compile commit points around rule references': ('C08', 'parser.CutPoint{Term: parser.Rule("r")} in a grammar made it panic ("How did this happen!?") when parsing'),
 'write choices as numbers in the text of parse trees': ('C27', 'Node.String() of a tree with a choice gave "a║%!s(parser.Choice=0)[...]"'),
})
