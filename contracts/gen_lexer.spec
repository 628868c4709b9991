package $GEN/lexer

// The automaton tables: every transition function maps every rune to a state or to nullState,
// every state has an accept entry, and every accept entry is a token type.
define tabOK() bool = len(nextState) > 0 && len(accept) == len(nextState) && (forall s int :: 0 <= s < len(nextState) ==> nextState[s] != nil && 0 <= accept[s] < len(token.Suppress)) && (forall s, r int :: {apply(nextState[s], r)} 0 <= s < len(nextState) ==> -1 <= apply(nextState[s], r) < len(nextState)) && 0 < len(token.Suppress)

// one step of the automaton
define step(tr arr[func(rune)state], to int, s int, c int) int = ite(s == -1, -1, apply(at(tr, to, s), c))
// state after the runes [i,k) from the start state
rec run(tr arr[func(rune)state], to int, r arr[rune], o int, i int, k int) int = ite(k <= i, 0, step(tr, to, run(tr, to, r, o, i, k-1), at(r, o, k-1)))
// the largest m >= k up to which the automaton can run from i
rec far(tr arr[func(rune)state], to int, r arr[rune], o int, n int, i int, k int) int = ite(k >= n || run(tr, to, r, o, i, k+1) == -1, k, far(tr, to, r, o, n, i, k+1))

define stopped(l *Lexer, i int) int = far(row(nextState), off(nextState), row(l.I), off(l.I), len(l.I), i, i)
define stateAt(l *Lexer, i int, k int) int = run(row(nextState), off(nextState), row(l.I), off(l.I), i, k)
// type and right extent of the token scanned at i
define typeFor(l *Lexer, i int, m int) int = ite(m == i, 0, accept[stateAt(l, i, m)])
define endFor(l *Lexer, i int, m int) int = ite(m == i, i + 1, ite(accept[stateAt(l, i, m)] == 0 && m < len(l.I), m + 1, m))

func (*Lexer).scan(l, i) (res)
  requires l != nil && tabOK() && 0 <= i < len(l.I)
  ensures fresh(res) && res.lext == i && res.input == l.I
  ensures longest: res.typ == typeFor(l, i, stopped(l, i))
  ensures extent: res.rext == endFor(l, i, stopped(l, i))
  ensures progress: i < res.rext <= len(l.I)
  ensures type: 0 <= res.typ < len(token.Suppress)
  alias s state
  alias typ token.Type
  alias rext int
  loop 1
    invariant i < rext
    invariant -1 <= s < len(nextState)
    invariant s != -1 ==> rext <= len(l.I) && s == stateAt(l, i, rext) && stopped(l, i) == far(row(nextState), off(nextState), row(l.I), off(l.I), len(l.I), i, rext)
    invariant s == -1 ==> rext == endFor(l, i, stopped(l, i)) && rext <= len(l.I) && typ == typeFor(l, i, stopped(l, i)) && 0 <= typ < len(token.Suppress)
    decreases ite(s == -1, 0, 1 + len(l.I) - rext)

// heap-free forms: type and right extent of the token at i
define typH(tr arr[func(rune)state], to int, ac arr[token.Type], ao int, r arr[rune], o int, n int, i int) int = ite(far(tr, to, r, o, n, i, i) == i, 0, at(ac, ao, run(tr, to, r, o, i, far(tr, to, r, o, n, i, i))))
define endH(tr arr[func(rune)state], to int, ac arr[token.Type], ao int, r arr[rune], o int, n int, i int) int = ite(far(tr, to, r, o, n, i, i) == i, i + 1, ite(typH(tr, to, ac, ao, r, o, n, i) == 0 && far(tr, to, r, o, n, i, i) < n, far(tr, to, r, o, n, i, i) + 1, far(tr, to, r, o, n, i, i)))

// first position at or after p that is not white space
rec skip(r arr[rune], o int, n int, p int) int = ite(p < n && ext("unicode.IsSpace", at(r, o, p)), skip(r, o, n, p+1), p)
// number of unsuppressed tokens from p on, without the end-of-file token
rec ntok(tr arr[func(rune)state], to int, ac arr[token.Type], ao int, su arr[bool], so int, r arr[rune], o int, n int, p int) int = ite(skip(r, o, n, p) >= n, 0, ite(at(su, so, typH(tr, to, ac, ao, r, o, n, skip(r, o, n, p))), 0, 1) + ntok(tr, to, ac, ao, su, so, r, o, n, endH(tr, to, ac, ao, r, o, n, skip(r, o, n, p))))
// left extent of the k-th unsuppressed token from p on; n for the end-of-file token
rec tstart(tr arr[func(rune)state], to int, ac arr[token.Type], ao int, su arr[bool], so int, r arr[rune], o int, n int, p int, k int) int = ite(skip(r, o, n, p) >= n, n, ite(at(su, so, typH(tr, to, ac, ao, r, o, n, skip(r, o, n, p))), tstart(tr, to, ac, ao, su, so, r, o, n, endH(tr, to, ac, ao, r, o, n, skip(r, o, n, p)), k), ite(k <= 0, skip(r, o, n, p), tstart(tr, to, ac, ao, su, so, r, o, n, endH(tr, to, ac, ao, r, o, n, skip(r, o, n, p)), k-1))))

define skipL(l *Lexer, p int) int = skip(row(l.I), off(l.I), len(l.I), p)
define ntokL(l *Lexer, p int) int = ntok(row(nextState), off(nextState), row(accept), off(accept), row(token.Suppress), off(token.Suppress), row(l.I), off(l.I), len(l.I), p)
define tstartL(l *Lexer, p int, k int) int = tstart(row(nextState), off(nextState), row(accept), off(accept), row(token.Suppress), off(token.Suppress), row(l.I), off(l.I), len(l.I), p, k)

// token t is what the automaton yields at its left extent, and is not suppressed
define scanned(l *Lexer, t *token.Token) bool = t != nil && t.input == l.I && 0 <= t.lext < t.rext && t.rext <= len(l.I) && 0 <= t.typ < len(token.Suppress) && t.typ == typeFor(l, t.lext, stopped(l, t.lext)) && t.rext == endFor(l, t.lext, stopped(l, t.lext)) && !ext("unicode.IsSpace", l.I[t.lext]) && !token.Suppress[t.typ]

func New(input) (res)
  requires tabOK() && len(token.Suppress) > 1
  ensures fresh(res) && res.I == input
  ensures count: len(res.Tokens) == ntokL(res, 0) + 1
  ensures starts: forall k int :: {tstartL(res, 0, k)} 0 <= k < len(res.Tokens) - 1 ==> res.Tokens[k].lext == tstartL(res, 0, k)
  ensures tokens: forall k int :: 0 <= k < len(res.Tokens) - 1 ==> scanned(res, res.Tokens[k])
  ensures tiling: forall j, k int :: 0 <= j < k < len(res.Tokens) ==> res.Tokens[j].rext <= res.Tokens[k].lext
  ensures eof: len(res.Tokens) > 0 && res.Tokens[len(res.Tokens)-1].typ == token.EOF && res.Tokens[len(res.Tokens)-1].lext == len(input) && res.Tokens[len(res.Tokens)-1].rext == len(input) && res.Tokens[len(res.Tokens)-1].input == input
  alias lex *Lexer
  alias lext int
  loop 1
    modifies lex.Tokens, elems(lex.Tokens)
    invariant newer(lex.Tokens) || arr(lex.Tokens) == arr(before(lex.Tokens))
    invariant fresh(lex) && lex.I == input && 0 <= lext <= len(input)
    invariant row(lex.I) == old(row(input))
    invariant fresh(lex.Tokens)
    invariant forall k int :: 0 <= k < len(lex.Tokens) ==> lex.Tokens[k] != nil && fresh(lex.Tokens[k])
    invariant ntokL(lex, 0) == len(lex.Tokens) + ntokL(lex, lext)
    invariant forall k int :: {tstartL(lex, 0, k)} 0 <= k < len(lex.Tokens) ==> lex.Tokens[k].lext == tstartL(lex, 0, k)
    invariant forall k int :: {tstartL(lex, 0, k)} len(lex.Tokens) <= k ==> tstartL(lex, 0, k) == tstartL(lex, lext, k - len(lex.Tokens))
    invariant forall k int :: 0 <= k < len(lex.Tokens) ==> scanned(lex, lex.Tokens[k])
    invariant forall k int :: 0 <= k < len(lex.Tokens) ==> lex.Tokens[k].rext <= lext
    invariant forall j, k int :: 0 <= j < k < len(lex.Tokens) ==> lex.Tokens[j].rext <= lex.Tokens[k].lext
    decreases len(input) - lext
  loop 2
    modifies nothing
    invariant before(lext) <= lext <= len(input)
    invariant skipL(lex, before(lext)) == skipL(lex, lext)
    decreases len(input) - lext

func (*Lexer).add(l, t, lext, rext)
  requires l != nil
  modifies l.Tokens, elems(l.Tokens)
  ensures len(l.Tokens) == len(old(l.Tokens)) + 1
  ensures forall k int :: 0 <= k < len(old(l.Tokens)) ==> l.Tokens[k] == old(l.Tokens[k])
  ensures fresh(l.Tokens[len(old(l.Tokens))])
  ensures l.Tokens[len(old(l.Tokens))].typ == t && l.Tokens[len(old(l.Tokens))].lext == lext && l.Tokens[len(old(l.Tokens))].rext == rext && l.Tokens[len(old(l.Tokens))].input == l.I

func (*Lexer).addToken(l, tok)
  requires l != nil
  modifies l.Tokens, elems(l.Tokens)
  ensures len(l.Tokens) == len(old(l.Tokens)) + 1
  ensures forall k int :: 0 <= k < len(old(l.Tokens)) ==> l.Tokens[k] == old(l.Tokens[k])
  ensures l.Tokens[len(old(l.Tokens))] == tok
  ensures fresh(l.Tokens) || arr(l.Tokens) == arr(old(l.Tokens))

func (*Lexer).GetLineColumn(l, i) (line, col)
  requires l != nil && 0 <= i <= len(l.I)
  ensures line == lcLine(row(l.I), off(l.I), i)
  ensures col == lcCol(row(l.I), off(l.I), i)
  alias line int
  alias col int
  loop 1
    invariant line == lcLine(row(l.I), off(l.I), $i)
    invariant col == lcCol(row(l.I), off(l.I), $i)

func (*Lexer).GetLineColumnOfToken(l, i) (line, col)
  requires l != nil && 0 <= i < len(l.Tokens) && l.Tokens[i] != nil && 0 <= l.Tokens[i].lext <= len(l.I)
  ensures line == lcLine(row(l.I), off(l.I), l.Tokens[i].lext)
  ensures col == lcCol(row(l.I), off(l.I), l.Tokens[i].lext)

func (*Lexer).GetString(l, lext, rext) (res)
  requires l != nil && 0 <= lext < len(l.Tokens) && 0 <= rext < len(l.Tokens)
  requires l.Tokens[lext] != nil && l.Tokens[rext] != nil && 0 <= l.Tokens[lext].lext <= l.Tokens[rext].rext && l.Tokens[rext].rext <= len(l.I)
  ensures res == str_of_runes(row(l.I), off(l.I) + l.Tokens[lext].lext, l.Tokens[rext].rext - l.Tokens[lext].lext)

// triple-backtick fences: fence position of a rune (0 none, 1/2: second/third tick of a fence)
define ticks(r arr[rune], o int, n int, k int) bool = k + 3 <= n && at(r, o, k) == '`' && at(r, o, k+1) == '`' && at(r, o, k+2) == '`'
rec fst(r arr[rune], o int, n int, k int) int = ite(k <= 0, 0, ite(fst(r, o, n, k-1) == 0, ite(ticks(r, o, n, k-1), 1, 0), ite(fst(r, o, n, k-1) == 1, 2, 0)))
// outside a code block just before rune k
rec outside(r arr[rune], o int, n int, k int) bool = ite(k <= 0, true, ite(fst(r, o, n, k-1) == 0 && ticks(r, o, n, k-1), !outside(r, o, n, k-1), outside(r, o, n, k-1)))
define mdval(r arr[rune], o int, n int, k int) int = ite(fst(r, o, n, k) != 0 || ticks(r, o, n, k), ' ', ite(outside(r, o, n, k) && at(r, o, k) != '\n', ' ', at(r, o, k)))

func loadMd(input)
  modifies elems(input)
  ensures forall k int :: 0 <= k < len(input) ==> input[k] == mdval(old(row(input)), off(input), len(input), k)
  ensures forall p int :: p < off(input) || p >= off(input) + len(input) ==> row(input)[p] == old(row(input))[p]
  alias i int
  alias text bool
  loop 1
    modifies elems(input)
    invariant 0 <= i <= len(input)
    invariant i < len(input) ==> fst(old(row(input)), off(input), len(input), i) == 0
    invariant text == outside(old(row(input)), off(input), len(input), i)
    invariant forall k int :: 0 <= k < i ==> input[k] == mdval(old(row(input)), off(input), len(input), k)
    invariant forall k int :: i <= k < len(input) ==> input[k] == at(old(row(input)), off(input), k)
    invariant forall p int :: p < off(input) || p >= off(input) + len(input) ==> row(input)[p] == old(row(input))[p]
    decreases len(input) - i
  loop 2
    unroll 4

func any(r, set) (res)
  ensures res <==> exists i int :: 0 <= i < len(set) && set[i] == r
  loop 1
    invariant forall i int :: 0 <= i < $i ==> set[i] != r

func not(r, set) (res)
  ensures res <==> !(exists i int :: 0 <= i < len(set) && set[i] == r)
  loop 1
    invariant forall i int :: 0 <= i < $i ==> set[i] != r

// the tables of the lexer are well formed
func tables:automaton()
  initial nextState, accept, token.Suppress
  ensures tabOK() && len(token.Suppress) > 1
