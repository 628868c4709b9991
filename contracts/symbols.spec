package github.com/goccmack/gogll/v3/symbols

// ---- the tables ----
define tLens(n int) bool = len(tToLiteral) == n + 2 && len(tToTypeString) == n + 2 && len(tSuppress) == n + 2 && len(tToID) == n + 2
define ntTables(g *ast.GoGLL) bool = len(ntToLiteral) == len(g.NonTerminals.set) && len(ntToString) == len(ntToLiteral) && (forall i int :: {ntToLiteral[i]} 0 <= i < len(ntToLiteral) ==> ntToLiteral[i] in g.NonTerminals.set && literalToNT[ntToLiteral[i]] == i && ntToString[i] == sprintf("NT_%s", ntToLiteral[i])) && (forall s string :: {s in literalToNT} s in literalToNT <==> s in g.NonTerminals.set) && (forall s string :: {literalToNT[s]} s in literalToNT ==> 0 <= literalToNT[s] < len(ntToLiteral) && ntToLiteral[literalToNT[s]] == s)
define tTables(g *ast.GoGLL) bool = tLens(len(g.Terminals.set)) && tToLiteral[0] == "Error" && tToTypeString[0] == "Error" && tToID[0] == "Error" && tToLiteral[1] == "$" && tToTypeString[1] == "EOF" && tToID[1] == "EOF" && (forall i int :: {tToLiteral[i]} 2 <= i < len(tToLiteral) ==> tToLiteral[i] in g.Terminals.set && tToID[i] == tToLiteral[i]) && (forall i int :: {tToTypeString[i]} 2 <= i < len(tToTypeString) ==> tToTypeString[i] == sprintf("T_%d", i - 2))
// each literal has its number
define tNumbers(g *ast.GoGLL) bool = (forall i int :: {tToLiteral[i]} 0 <= i < len(tToLiteral) ==> literalToT[tToLiteral[i]] == i && tToLiteral[i] in literalToT) && (forall s string :: {s in literalToT} s in literalToT <==> s in g.Terminals.set || s == "Error" || s == "$") && (forall s string :: {literalToT[s]} s in literalToT ==> 0 <= literalToT[s] < len(tToLiteral) && tToLiteral[literalToT[s]] == s)
define lexOK(g *ast.GoGLL) bool = (forall i int :: {g.LexRules[i]} 0 <= i < len(g.LexRules) ==> ruleOK(g.LexRules[i]) && ruleID(g.LexRules[i]) in g.Terminals.set) && (forall i, j int :: {g.LexRules[i], g.LexRules[j]} 0 <= i < j < len(g.LexRules) ==> ruleID(g.LexRules[i]) != ruleID(g.LexRules[j]))
// a terminal is suppressed iff its rule is
define tSupp(g *ast.GoGLL) bool = (forall i int :: {g.LexRules[i]} 0 <= i < len(g.LexRules) ==> (tSuppress[literalToT[ruleID(g.LexRules[i])]] <==> g.LexRules[i].Suppress)) && (forall i int :: {tSuppress[i]} 0 <= i < len(tSuppress) && tSuppress[i] ==> (exists k int :: {g.LexRules[k]} 0 <= k < len(g.LexRules) && literalToT[ruleID(g.LexRules[k])] == i && g.LexRules[k].Suppress))

define apartT() bool = arr(tToLiteral) != arr(tToTypeString) && arr(tToLiteral) != arr(tToID) && arr(tToTypeString) != arr(tToID) && arr(ntToLiteral) != arr(tToLiteral) && arr(ntToLiteral) != arr(tToTypeString) && arr(ntToLiteral) != arr(tToID) && arr(ntToString) != arr(tToLiteral) && arr(ntToString) != arr(tToTypeString) && arr(ntToString) != arr(tToID)

func Init(g)
  reveal distinctStr
  requires termsOK(g) && lexOK(g) && !("Error" in g.Terminals.set) && !("$" in g.Terminals.set)
  modifies initialisized, literalToNT, ntToLiteral, ntToString, literalToT, tToLiteral, tToTypeString, tSuppress, tToID
  ensures initialisized
  ensures nonterminals: ntTables(g)
  ensures terminals: tTables(g)
  ensures numbers: tNumbers(g)
  ensures suppressed: tSupp(g)
  loop 1
    invariant len(nts) == len(g.NonTerminals.set) && fresh(arr(ntToLiteral)) && fresh(arr(ntToString)) && fresh(ref(literalToNT)) && arr(ntToLiteral) != arr(nts) && arr(ntToString) != arr(nts) && arr(ntToString) != arr(ntToLiteral)
    invariant len(ntToLiteral) == len(nts) && len(ntToString) == len(nts)
    invariant forall i int :: {nts[i]} 0 <= i < len(nts) ==> nts[i] == before(nts[i])
    invariant forall i, j int :: {nts[i], nts[j]} 0 <= i < j < len(nts) ==> nts[i] != nts[j]
    invariant forall i int :: {nts[i]} 0 <= i < len(nts) ==> nts[i] in g.NonTerminals.set
    invariant forall s string :: {s in g.NonTerminals.set} s in g.NonTerminals.set ==> exists i int :: {nts[i]} 0 <= i < len(nts) && nts[i] == s
    invariant forall i int :: {ntToLiteral[i]} {nts[i]} 0 <= i < $i ==> ntToLiteral[i] == nts[i] && literalToNT[nts[i]] == i && nts[i] in literalToNT && ntToString[i] == sprintf("NT_%s", nts[i])
    invariant forall s string :: {s in literalToNT} s in literalToNT ==> 0 <= literalToNT[s] < $i && nts[literalToNT[s]] == s
  loop 2
    invariant ntTables(g)
    invariant fresh(arr(tToLiteral)) && fresh(arr(tToTypeString)) && fresh(arr(tSuppress)) && fresh(arr(tToID)) && fresh(ref(literalToT)) && literalToT != nil
    invariant apartT()
    invariant tLens(len(g.Terminals.set))
    invariant len(ts) == len(g.Terminals.set) && arr(ts) != arr(tToLiteral) && arr(ts) != arr(tToTypeString) && arr(ts) != arr(tToID)
    invariant forall i int :: {ts[i]} 0 <= i < len(ts) ==> ts[i] == before(ts[i])
    invariant forall i, j int :: {ts[i], ts[j]} 0 <= i < j < len(ts) ==> ts[i] != ts[j]
    invariant forall i int :: {ts[i]} 0 <= i < len(ts) ==> ts[i] in g.Terminals.set && ts[i] != "Error" && ts[i] != "$"
    invariant tToLiteral[0] == "Error" && tToTypeString[0] == "Error" && tToID[0] == "Error" && tToLiteral[1] == "$" && tToTypeString[1] == "EOF" && tToID[1] == "EOF"
    invariant "Error" in literalToT && "$" in literalToT && literalToT["Error"] == 0 && literalToT["$"] == 1
    invariant forall i int :: {tToLiteral[i]} 2 <= i < $i + 2 ==> tToLiteral[i] == ts[i - 2] && tToID[i] == tToLiteral[i]
    invariant forall i int :: {tToTypeString[i]} 2 <= i < $i + 2 ==> tToTypeString[i] == sprintf("T_%d", i - 2)
    invariant forall i int :: {ts[i]} 0 <= i < $i ==> ts[i] in literalToT && literalToT[ts[i]] == i + 2
    invariant forall s string :: {s in literalToT} s in literalToT ==> s == "Error" || s == "$" || s in g.Terminals.set && 2 <= literalToT[s] < $i + 2 && ts[literalToT[s] - 2] == s
    invariant forall i int :: {tSuppress[i]} 0 <= i < len(tSuppress) ==> !tSuppress[i]
  loop 3
    invariant ntTables(g)
    invariant fresh(arr(tToLiteral)) && fresh(arr(tToTypeString)) && fresh(arr(tSuppress)) && fresh(arr(tToID)) && fresh(ref(literalToT)) && literalToT != nil
    invariant apartT()
    invariant tLens(len(g.Terminals.set))
    invariant tTables(g) && tNumbers(g)
    invariant forall i int :: {g.LexRules[i]} 0 <= i < $i ==> (tSuppress[literalToT[ruleID(g.LexRules[i])]] <==> g.LexRules[i].Suppress)
    invariant forall i int :: {tSuppress[i]} 0 <= i < len(tSuppress) && tSuppress[i] ==> (exists k int :: {g.LexRules[k]} 0 <= k < $i && literalToT[ruleID(g.LexRules[k])] == i && g.LexRules[k].Suppress)

// ---- what the generators read ----
define ready() bool = initialisized
func IsNonTerminal(sym) (res)
  ensures res <==> sym in literalToNT

func TerminalLiteralToType(s) (res)
  aborts !(s in literalToT)
  ensures res == literalToT[s]

func FromASTString(astSym) (res)
  aborts !initialisized || !(astSym in literalToNT) && !(astSym in literalToT)
  ensures astSym in literalToNT ==> typeis(res, NT) && as(res, NT) == literalToNT[astSym]
  ensures !(astSym in literalToNT) ==> typeis(res, T) && as(res, T) == literalToT[astSym]

func (NT).Literal(nt) (res)
  requires initialisized && 0 <= nt < len(ntToLiteral)
  ensures res == ntToLiteral[nt]
func (NT).String(nt) (res)
  requires initialisized && 0 <= nt < len(ntToLiteral)
  ensures res == ntToLiteral[nt]
func (NT).GoString(nt) (res)
  requires initialisized && 0 <= nt < len(ntToString)
  ensures res == ntToString[nt]
func (T).Literal(t) (res)
  requires initialisized && 0 <= t < len(tToLiteral)
  ensures res == tToLiteral[t]
func (T).String(t) (res)
  requires initialisized && 0 <= t < len(tToLiteral)
  ensures res == tToLiteral[t]
func (T).GoString(t) (res)
  requires initialisized && 0 <= t < len(tToTypeString)
  ensures res == tToTypeString[t]
func (T).TypeString(t) (res)
  requires initialisized && 0 <= t < len(tToTypeString)
  ensures res == tToTypeString[t]
func (T).ID(t) (res)
  requires 0 <= t < len(tToID)
  ensures res == tToID[t]
func (T).Suppress(t) (res)
  requires 0 <= t < len(tSuppress)
  ensures res <==> tSuppress[t]

func GetNonTerminals() (nts)
  ensures len(nts) == len(ntToLiteral) && fresh(arr(nts))
  ensures forall i int :: {nts[i]} 0 <= i < len(nts) ==> nts[i] == i
  loop 1
    invariant forall i int :: {nts[i]} 0 <= i < $i ==> nts[i] == i
func GetTerminals() (ts)
  ensures len(ts) == len(tToLiteral) && fresh(arr(ts))
  ensures forall i int :: {ts[i]} 0 <= i < len(ts) ==> ts[i] == i
  loop 1
    invariant forall i int :: {ts[i]} 0 <= i < $i ==> ts[i] == i
func GetNTType(nt) (res)
  ensures nt in literalToNT ==> res == literalToNT[nt]
func GetNonTerminalSymbols() (res)
  ensures res == ntToLiteral
func GetTerminalSymbols() (res)
  ensures res == tToLiteral
func GetTerminalTypeStrings() (res)
  ensures res == tToTypeString
func GetSymbols() (symbols)
  ensures len(symbols) == len(ntToLiteral) + len(tToLiteral)
  ensures forall i int :: {symbols[i]} 0 <= i < len(symbols) ==> symbols[i] == ite(i < len(ntToLiteral), ntToLiteral[i], tToLiteral[i - len(ntToLiteral)])
