#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and checks.json."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
LX="gen/golang/lexer/lexer.go"; TK="gen/golang/token/token.go"; GL="gen/golang/gll/parser.go"; BS="gen/golang/gll/bsr/bsr.go"
p("C01","Generated lexers tile the input and always end",
  "For every input, a generated lexer ends, and its token list is strictly ordered by position: tokens are non-empty, inside the input, do not overlap, and everything between two consecutive tokens is white space or suppressed tokens. The list ends with exactly one end-of-file token, which is empty and lies at the end of the input.",
  ["inputs","programs"],"every input (any sequence of runes) of every lexer gogll generates, and of gogll's own lexer",
  "the tests lex a few fixed inputs with a few fixed grammars",
  [LX,"lexer/lexer.go"],[("New: scan loop, white space skipping, end-of-file token",LX),("(*Lexer).scan: always consumes at least one rune",LX)],["Lexer.Tokens"])
p("C02","Every token is the longest match at its position",
  "Each token a generated lexer produces covers the longest run its automaton can make from the token's start and carries the type the automaton accepts there. Where that run ends in a state that accepts nothing, the token is an error token: it also covers the rune that stopped the run, if there is one, and lexing resumes right after it.",
  ["inputs","programs"],"every input of every generated lexer",
  "the tests never compare extents with an independent longest match, nor feed erroneous input",
  [LX,"lexer/lexer.go"],[("(*Lexer).scan: run of the transition functions, last type, error extent",LX)],["Lexer.Tokens","Token.Lext","Token.Rext","Token.Type"])
p("C03","The automaton recognises exactly the lexical rules",
  "For a grammar whose lexical rune sets and literals are pairwise disjoint or nested, the generated lexer gives a run of runes a token type exactly when the run is in the language of that lexical rule or literal of the grammar (concatenation, alternatives, options, repetitions, character classes, any/not sets, Unicode sets, escapes), and takes the longest such run. A literal of the syntax rules takes precedence over a lexical rule that matches the same run.",
  ["programs","inputs"],"every lexical grammar of that kind and every input",
  "the tests compile a dozen fixed grammars; item tests check the item moves of a handful of rules",
  ["lex/item/item.go","lex/item/pos/pos.go","lex/items/items.go","lex/items/event/event.go","util/runeset/runeset.go","ast/lex.go",LX],
  [("item moves: Emoves, Next, reducing items","lex/item/item.go"),("subset construction: closure, transitions, accept symbol of a set","lex/items/items.go"),("event ordering and containment of rune sets","lex/items/event/event.go"),("Unicode and rune set operations","util/runeset/runeset.go"),("positions in nested bracket expressions","lex/item/pos/pos.go"),("generation of transition functions and accept table",LX)],
  ["tokens of the generated lexer"])
p("C04","Markdown input keeps positions and only code blocks",
  "When the input file name ends in .md, exactly the runes inside fenced code blocks keep their value: every rune outside them except a newline, and every rune of the fences themselves, reads as a blank, so that all positions and line numbers are those of the file. Any other file is read unchanged.",
  ["inputs"],"every file content, with and without the .md suffix",
  "the tests read two or three well-formed markdown grammars",
  [LX,"lexer/lexer.go"],[("NewFile, loadMd",LX)],["Lexer.I","Token.GetLineColumn"])
p("C05","Line and column positions are exact",
  "The line reported for a position is one plus the number of newlines before it; the column is one plus the width of the runes since the last newline, where a tab is four wide and every other rune one. The lexer and the token report the same position for the same place.",
  ["inputs"],"every input and every position in it",
  "no test asks for a line or column",
  [LX,TK,"lexer/lexer.go","token/token.go"],[("Lexer.GetLineColumn, GetLineColumnOfToken",LX),("Token.GetLineColumn",TK)],["GetLineColumn"])
p("C06","Token text is exact, and escapes are undone as specified",
  "The literal of a token is the input between its extents, as runes and as a string, and the string of a range of tokens is the input from the first to the last of them. Stripping escapes removes each escaping backslash and keeps the rune after it, with \\n, \\r and \\t becoming newline, carriage return and tab; a backslash at the end is kept.",
  ["inputs"],"every input and token extent, every placing of backslashes",
  "two fixed strings are tested",
  [TK,LX,"token/token.go","lexer/lexer.go"],[("Token.Literal, LiteralString, LiteralStripEscape, LiteralStringStripEscape",TK),("Lexer.GetString",LX)],["Token.Literal*","Lexer.GetString"])
p("C07","Token tables name every terminal once; suppression is exact",
  "The generated token types are Error, end of file and one type for every terminal of the grammar, each with its own number, identifier and name, and the lookup from name to type inverts the naming. A token type is suppressed exactly when its lexical rule is marked as suppressed, and the tokens of the lexer are those of the automaton without the suppressed ones.",
  ["programs","inputs"],"every grammar (whose terminals have distinct names) and every input",
  "no test reads the tables; one grammar suppresses comments",
  [TK,"symbols/symbols.go","ast/lex.go",LX],[("token table template and its data",TK),("terminal symbols and literals","symbols/symbols.go"),("skipping suppressed tokens",LX)],["token.Type","token tables","Lexer.Tokens"])
p("C08","FIRST and FOLLOW sets are exact",
  "The FIRST set of every nonterminal is exactly the set of terminals that can begin a string derived from it, plus the empty string exactly when it derives the empty string. The FOLLOW set is the least one that contains end-of-file for the start symbol and, for every occurrence of the nonterminal in a rule, FIRST of what follows it, together with FOLLOW of the rule's head when what follows can be empty.",
  ["programs"],"every grammar gogll accepts (least solutions of the FIRST and FOLLOW equations)",
  "no test compares the sets with anything",
  ["frstflw/frstflw.go","gen/firstfollow/firstfollow.go"],[("FIRST and FOLLOW fixed points","frstflw/frstflw.go"),("FirstOfString","frstflw/frstflw.go")],["first_follow.txt (gogll -v)"])
p("C09","Generated GLL parsers accept exactly the language",
  "For every grammar gogll accepts, including ambiguous, left-recursive, cyclic and nullable ones, the generated GLL parser compiles, ends on every token sequence, returns a parse forest and no errors when the sequence is in the language of the grammar, and no forest when it is not.",
  ["programs","inputs"],"every context-free grammar and every token sequence",
  "the tests run single fixed inputs through a few grammars",
  ["gen/golang/gll/parser.go","gen/golang/gll/codex.go","gen/golang/gll/testselect.go","gslot/gslot.go","frstflw/frstflw.go"],
  [("GLL descriptor loop, call/return, popped set",GL),("code of an alternate","gen/golang/gll/codex.go"),("select and follow sets","gen/golang/gll/testselect.go")],["parser.Parse"])
p("C10","Grammar slots describe the grammar",
  "In a generated GLL parser, the rule of every subtree has the symbols, the head and the number of the alternate that the grammar gives it, and slots can be looked up by nonterminal, alternate and position.",
  ["programs"],"every grammar and every slot",
  "the tests compile the slots of a few grammars and never read them",
  ["gslot/gslot.go","gen/golang/gll/slots/slots.go","gen/golang/gll/symbols/symbols.go"],[("slot enumeration and labels","gslot/gslot.go"),("slot tables","gen/golang/gll/slots/slots.go"),("symbol tables","gen/golang/gll/symbols/symbols.go")],["slot.Label","BSR.Label","BSR.Alternate"])
p("C11","The parse forest is sound and complete",
  "After a successful GLL parse the forest holds no subtree that is not a derivation of the tokens it spans, every subtree of every derivation of the input, each exactly once, and its roots are exactly the derivations of the whole input by the start symbol. Asking whether the forest contains a nonterminal over a span answers yes exactly when it holds such a subtree.",
  ["programs","inputs"],"every grammar and every accepted token sequence",
  "the tests look at one tree of a few unambiguous inputs",
  [BS,GL,"gen/golang/gll/codex.go"],[("Set.Add, AddEmpty, insert, Contain, GetRoots",BS),("adding subtrees at slots and returns",GL)],["bsr.Set.GetAll","GetRoots","Contain","GetRightExtent"])
p("C12","Tree navigation returns all and only the real children",
  "For every subtree of the parse forest and every symbol of its rule, the children returned for a nonterminal are exactly the forest's derivations of that symbol that fit the subtree's span and rule, each once, through every way of asking for them; in an unambiguous parse the terminal returned is the token at that place. A parse is reported ambiguous exactly when the (acyclic) forest has several roots or a reachable nonterminal with several derivations at one place.",
  ["programs","inputs"],"every grammar, every accepted token sequence, every subtree and symbol of the forest",
  "the tests navigate one tree of a few unambiguous inputs; rules with three or more symbols and several pivots do not occur",
  [BS],[("GetNTChildrenI, GetNTChildren, GetNTChild(I), GetAllNTChildren, GetTChildI",BS),("IsAmbiguous",BS)],["BSR.Get*","Set.IsAmbiguous"])
p("C13","The shared packed parse forest is exact",
  "The shared packed parse forest built from a successful GLL parse has exactly the nodes and edges of the derivations of the input: a packed node for every way to derive a symbol node's span by one rule and pivot, with the intermediate nodes of longer rules, and nothing else.",
  ["programs","inputs"],"every grammar and every accepted token sequence",
  "no test compares a forest; two tests write one to a file",
  [BS,"gen/golang/gll/sppf/sppf.go"],[("ToSPPF, mkPN, mkIN, mkSN",BS),("node labels","gen/golang/gll/sppf/sppf.go")],["Set.ToSPPF"])
p("C14","GLL parse errors point at the real failure",
  "A failed GLL parse reports at least one error, in descending order of input position, each at a token of the input with that token's line and column, and never listing the found token among the expected ones. When every nonterminal of the grammar derives some string, the first error is at the end of the longest prefix of the input that can be continued to a sentence of the language.",
  ["programs","inputs"],"every grammar and every rejected token sequence",
  "the tests only check that an error occurs on one or two inputs",
  [GL,"gen/golang/gll/codex.go"],[("parseError, sortParseErrors, ntAdd, startErrors",GL),("slot tests","gen/golang/gll/codex.go")],["parser.Error"])
p("C15","Generated LR(1) parsers accept exactly the language",
  "For every grammar without LR(1) conflicts whose nonterminals all derive some string, the generated LR(1) parser compiles, ends on every token sequence and succeeds exactly on the sentences of the grammar.",
  ["programs","inputs"],"every LR(1) grammar and every token sequence, for both table constructions",
  "the tests parse single inputs with a few grammars",
  ["lr1/gen.go","lr1/first/first.go","lr1/first/firstset.go","lr1/items/item.go","lr1/items/items.go","lr1/knuth/states.go","lr1/states/state.go","lr1/action/action.go","gen/golang/lr1/parser/parser.go","gen/golang/lr1/parser/actiontable.go","gen/golang/lr1/parser/gototable.go","gen/golang/lr1/parser/productionstable.go"],
  [("closure and goto of item sets","lr1/states/state.go"),("FIRST of strings","lr1/first/first.go"),("actions of a state","lr1/action/action.go"),("tables","gen/golang/lr1/parser/actiontable.go"),("driver loop","gen/golang/lr1/parser/parser.go")],["parser.Parse"])
p("C16","LR(1) conflicts are found and resolved as documented",
  "When asked for an LR(1) parser without automatic conflict resolution, gogll refuses a grammar (whose nonterminals all derive some string) exactly when its LR(1) automaton has a conflict. With resolution on, a shift is taken over a reduction, and of two reductions (accepting counts as the reduction of the first rule) the one of the rule written first, so that the parser behaves as the conflicted tables resolved that way.",
  ["programs"],"every grammar, with and without automatic conflict resolution",
  "no test has a conflict",
  ["lr1/action/action.go","lr1/action/conflict.go","lr1/gen.go"],[("conflict detection and resolution","lr1/action/action.go"),("reporting","lr1/gen.go")],["exit status of gogll","generated tables"])
p("C17","Pager's compact tables are equivalent to the canonical ones",
  "For every grammar without LR(1) conflicts whose nonterminals all derive some string, the parser generated with Pager's method has no conflict and accepts exactly the same token sequences with the same reductions as the one generated with Knuth's method, with no more states.",
  ["programs","inputs"],"every LR(1) grammar and every token sequence",
  "no test compares the two constructions",
  ["lr1/pgm/states.go","lr1/states/configgroup.go","lr1/states/configgroupset.go","lr1/states/contextset.go"],[("weak compatibility, merging, regeneration of states","lr1/pgm/states.go"),("contexts of a state's core","lr1/states/configgroupset.go")],["generated tables"])
p("C18","LR(1) parsers call the AST actions in derivation order",
  "On a sentence of the grammar, the generated LR(1) parser calls the AST function of each rule of the rightmost derivation exactly once, bottom-up and left to right, with the attributes of the rule's symbols in order (tokens for terminals), and returns what the start rule's function returned. An empty alternate calls no function and has a nil attribute. On any other token sequence the parser returns an error that names the first token that cannot continue the input, and, in a parser made with Knuth's method, exactly the tokens that can; an error returned by an AST function ends the parse with that error.",
  ["programs","inputs"],"every LR(1) grammar whose nonterminals all derive some string, every token sequence, every AST function",
  "the tests use two small calculators",
  ["gen/golang/lr1/parser/parser.go","gen/golang/lr1/parser/productionstable.go","gen/golang/lr1/parser/errors.go","gen/golang/lr1/ast/ast.go"],[("driver loop and stack","gen/golang/lr1/parser/parser.go"),("productions table","gen/golang/lr1/parser/productionstable.go"),("errors","gen/golang/lr1/parser/errors.go")],["parser.Parse","AST functions"])
p("C19","Ill-formed grammars are refused, well-formed ones are read exactly",
  "gogll refuses, with a non-zero exit status and a message that names the offender or its place, a grammar that uses an undefined nonterminal or token, uses a token in a lexical rule before its definition, defines a lexical or syntax rule twice, has white space in a literal of a syntax rule or, for a GLL parser, has a nonterminal no rule calls. For every grammar it accepts, the rules, alternates and symbols it works with are those written in the file, in order.",
  ["programs"],"every grammar file",
  "the tests have no ill-formed grammar",
  ["sc/sc.go","ast/build.go","ast/ast.go","ast/lex.go","ast/syntax.go"],[("semantic checks","sc/sc.go"),("building the AST from the parse tree","ast/build.go")],["exit status and message of gogll","symbols.txt, grammar_slots.txt"])
p("C20","Generation is deterministic",
  "Running gogll twice on the same grammar with the same options writes the same files with the same contents.",
  ["programs","configurations"],"every grammar and option, every iteration order of Go maps",
  "map iteration order differs between runs and the tests run the generator once per grammar",
  ["main.go","frstflw/frstflw.go","symbols/symbols.go","ast/lex.go","lr1/states/states.go","gen/golang/golang.go"],[("sorted iteration of sets and maps","symbols/symbols.go")],["generated files"])
with open(V+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
C=json.load(open(V+'/checks.json'))
NA=json.load(open(V+'/tools/not_applicable.json')) if os.path.exists(V+'/tools/not_applicable.json') else {}
m=dict(version=1,setup_cmd="./setup.sh",hooks=dict(guard="none",enable="nothing to enable: the contracts live in /verif and the code of /repo is verified as it stands",source_commits=[]),checks=[],not_applicable=[])
for x in P:
    c=C.get(x['id'])
    if c:
        m['checks'].append(dict(property=x['id'],quick_cmd="./check.sh %s quick"%x['id'],thorough_cmd="./check.sh %s thorough"%x['id'],evidence_file="evidence/%s.json"%x['id'],
          technique=c.get('Technique') or "contract-based deductive verification of the Go source (gv: verification conditions discharged by z3/cvc5)",level=c['Level'],level_note=c.get('Note','')))
    else:
        m['not_applicable'].append(dict(property=x['id'],reason=NA.get(x['id'],"not claimed yet: its contracts are still being written")))
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
