#!/usr/bin/env python3
"""Refreshes the "fixed" lines of known_findings.json from the fix commits of /repo."""
import json, subprocess
M = {
 'error of a failed repetition': ('C18', 'Error() of a failed repetition never returned'),
 'resolve productions that reduce': ('C01', 'a -> x=b panicked or was unlinked'),
 'regular expressions with several': ('C05', '(a)(b) panicked; (a)|b yielded nothing for "b"'),
 'unbounded repetition of a term': ('C13', '("a"*)* never ended'),
 'back-reference to a delimited repetition': ('C04', 'x="a":,"," %x panicked on ",a"'),
 'parse escape next to': ('C07', 'an escape as element of a delimited repetition crashed'),
 'scoped grammars whose term or rules reduce': ('C06', 'a -> b { b -> c; c -> "x"; } was unlinked'),
 'an optional trailing separator': ('C08', '"a":","?-style trailing separators were cut points and refused valid input'),
 'literals repeated in a scoped': ('C08', 'a literal used inside and outside a scope became a cut point'),
 'a rule that is a single cut point': ('C08', 'a -> b "x" | b "y"; b -> "k"; refused "ky"'),
 'escapes in grammar strings': ('C09', '"\\t" and the like were not decoded, "\\q" was accepted'),
 'regular expressions are validated': ('C09', 'an invalid regular expression crashed the parser'),
 'block comments of any length': ('C09', '/***/ and longer ones were refused'),
 'parsing from an unknown rule': ('C12', 'Parse("nosuch") crashed'),
 'bare regular expressions accept': ('C09', '\\pL and {m,nn} were refused'),
 'writing out a term repeated': ('C09', 'x{1} was written as x'),
 'a reference to a rule that': ('C13', 'a reference to a missing rule crashed the parser'),
 'left recursion, unknown references': ('C13', 'a -> a "x" | "y" was accepted and overflowed the stack'),
 'macro arguments in lookaheads': ('C10', 'a parameter below (?= ) or { } was left in place'),
 'scoped grammars of precedence stack': ('C03', '"@" below a scoped grammar was unlinked'),
 'scoped grammars, macro cycles': ('C12', 'unknown names in scopes, recursive macros and {2,1} crashed or were accepted'),
 'large lower bound': ('C13', '"a"{1000000,} allocated according to the grammar, not the input'),
 'import cycles terminate': ('C11', 'two files importing each other never ended'),
 'imports of imported files': ('C11', 'a nested import was looked up next to the working directory'),
 'gen reports unwritable': ('C24', 'gen exited 0 without output'),
 'macro bodies are validated': ('C10', 'an invalid macro body crashed or was accepted'),
 'rules that cannot match nothing': ('C13', 'the search for left recursion did not end / refused valid grammars'),
 'rules of scoped grammars defined': ('C12', 'a rule defined twice in a scope was accepted, one of the two at random'),
 "back-references to text that isn't": ('C13', 'a back-reference to invalid UTF-8 crashed'),
 'trees of rules that reduce': ('C14', 'AST of a -> x=b panicked'),
 'ASTs of scoped grammars': ('C14', 'AST of scoped grammars panicked or changed the grammar'),
 'ASTs of stacks': ('C14', 'a stack referred to at two levels lost nodes in the AST'),
 'ASTs of associative': ('C14', 'nodes of the chain were dropped or the conversion panicked'),
 'scanner of a list': ('C14', 'Scanner() of a list with an empty node panicked'),
 'parse trees rebuilt from ASTs': ('C15', 'ToParserNode panicked or dropped nodes'),
 'tags of parse trees': ('C15', 'rebuilt trees had different tags'),
}
import os, sys
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(f))
if os.path.exists(os.path.join(os.path.dirname(f), 'tools', 'fixed_more.py')):
    exec(open(os.path.join(os.path.dirname(f), 'tools', 'fixed_more.py')).read())
d['fixed'] = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'b7ea391..HEAD'], capture_output=True, text=True).stdout.split('\n')
for l in log:
    if not l: continue
    h, s = l.split(' ', 1); s = s.replace('fix: ', '')
    k = [v for k, v in M.items() if s.startswith(k)]
    if not k: sys.exit('no entry for ' + s)
    d['fixed'].append(f'fixed: property={k[0][0]} {h} {s}: {k[0][1]}')
json.dump(d, open(f, 'w'), indent=1, ensure_ascii=False); open(f, 'a').write('\n')
