package $GEN/token

define tokOK(t *Token) bool = t != nil && 0 <= t.lext && t.lext <= t.rext && t.rext <= len(t.input)

// line and column after the first n runes
rec lcLine(r arr[rune], o int, n int) int = ite(n <= 0, 1, lcLine(r, o, n-1) + ite(at(r, o, n-1) == '\n', 1, 0))
rec lcCol(r arr[rune], o int, n int) int = ite(n <= 0, 1, ite(at(r, o, n-1) == '\n', 1, lcCol(r, o, n-1) + ite(at(r, o, n-1) == '\t', 4, 1)))

// escd(k): rune k is preceded by a backslash that starts an escape
rec escd(r arr[rune], o int, k int) bool = ite(k <= 0, false, at(r, o, k-1) == '\\' && !escd(r, o, k-1))
// intro(k): rune k is a backslash that starts an escape in a literal of n runes
define intro(r arr[rune], o int, n int, k int) bool = at(r, o, k) == '\\' && !escd(r, o, k) && k + 1 < n
// number of runes emitted for the first k runes of the literal
rec emitted(r arr[rune], o int, n int, k int) int = ite(k <= 0, 0, emitted(r, o, n, k-1) + ite(intro(r, o, n, k-1), 0, 1))
define unesc(c int) int = ite(c == 't', '\t', ite(c == 'r', '\r', ite(c == 'n', '\n', c)))
define emitval(r arr[rune], o int, k int) int = ite(escd(r, o, k), unesc(at(r, o, k)), at(r, o, k))
// the value of the first k runes of the literal
rec strip(r arr[rune], o int, n int, k int) string = ite(k <= 0, "", ite(intro(r, o, n, k-1), strip(r, o, n, k-1), strip(r, o, n, k-1) + strofrune(emitval(r, o, k-1))))
define stripped(t *Token) string = strip(row(t.input), off(t.input) + t.lext, t.rext - t.lext, t.rext - t.lext)

func New(t, lext, rext, input) (res)
  ensures fresh(res) && res.typ == t && res.lext == lext && res.rext == rext && res.input == input

func (*Token).GetLineColumn(t) (line, col)
  requires tokOK(t)
  ensures line == lcLine(row(t.input), off(t.input), t.lext)
  ensures col == lcCol(row(t.input), off(t.input), t.lext)
  alias line int
  alias col int
  loop 1
    invariant line == lcLine(row(t.input), off(t.input), $i)
    invariant col == lcCol(row(t.input), off(t.input), $i)

func (*Token).GetInput(t) (res)
  requires t != nil
  ensures res == t.input

func (*Token).Lext(t) (res)
  requires t != nil
  ensures res == t.lext

func (*Token).Rext(t) (res)
  requires t != nil
  ensures res == t.rext

func (*Token).Literal(t) (res)
  requires tokOK(t)
  ensures len(res) == t.rext - t.lext
  ensures forall i int :: 0 <= i < len(res) ==> res[i] == t.input[t.lext+i]
  ensures arr(res) == arr(t.input) && off(res) == off(t.input) + t.lext

func (*Token).LiteralString(t) (res)
  requires tokOK(t)
  ensures rlen(res) == t.rext - t.lext
  ensures forall i int :: 0 <= i < t.rext - t.lext ==> rat(res, i) == t.input[t.lext+i]
  ensures res == str_of_runes(row(t.input), off(t.input) + t.lext, t.rext - t.lext)

func (*Token).LiteralStripEscape(t) (res)
  requires tokOK(t)
  ensures len(res) == emitted(row(t.input), off(t.input) + t.lext, t.rext - t.lext, t.rext - t.lext)
  ensures forall k int :: {escd(row(t.input), off(t.input) + t.lext, k)} 0 <= k < t.rext - t.lext && !intro(row(t.input), off(t.input) + t.lext, t.rext - t.lext, k) ==> 0 <= emitted(row(t.input), off(t.input) + t.lext, t.rext - t.lext, k) < len(res) && res[emitted(row(t.input), off(t.input) + t.lext, t.rext - t.lext, k)] == emitval(row(t.input), off(t.input) + t.lext, k)
  ensures runestr(res) == stripped(t)
  ensures fresh(arr(res))
  alias strip []rune
  alias i int
  loop 1
    invariant 0 <= i <= t.rext - t.lext
    invariant i < t.rext - t.lext ==> !escd(row(t.input), off(t.input) + t.lext, i)
    invariant len(strip) == emitted(row(t.input), off(t.input) + t.lext, t.rext - t.lext, i)
    invariant forall k int :: {escd(row(t.input), off(t.input) + t.lext, k)} 0 <= k < i && !intro(row(t.input), off(t.input) + t.lext, t.rext - t.lext, k) ==> 0 <= emitted(row(t.input), off(t.input) + t.lext, t.rext - t.lext, k) < len(strip) && strip[emitted(row(t.input), off(t.input) + t.lext, t.rext - t.lext, k)] == emitval(row(t.input), off(t.input) + t.lext, k)
    invariant row(t.input) == old(row(t.input))
    invariant fresh(arr(strip))
    invariant runestr(strip) == strip(row(t.input), off(t.input) + t.lext, t.rext - t.lext, i)

func (*Token).LiteralStringStripEscape(t) (res)
  requires tokOK(t)
  ensures rlen(res) == emitted(row(t.input), off(t.input) + t.lext, t.rext - t.lext, t.rext - t.lext)
  ensures forall k int :: {escd(row(t.input), off(t.input) + t.lext, k)} 0 <= k < t.rext - t.lext && !intro(row(t.input), off(t.input) + t.lext, t.rext - t.lext, k) ==> rat(res, emitted(row(t.input), off(t.input) + t.lext, t.rext - t.lext, k)) == emitval(row(t.input), off(t.input) + t.lext, k)
  ensures res == stripped(t)

func (*Token).Suppress(t) (res)
  requires t != nil && 0 <= t.typ < len(Suppress)
  ensures res <==> Suppress[t.typ]

func (*Token).Type(t) (res)
  requires t != nil
  ensures res == t.typ

func (*Token).TypeID(t) (res)
  requires t != nil && 0 <= t.typ < len(TypeToID)
  ensures res == TypeToID[t.typ]

func (*Token).String(t) (res)
  requires tokOK(t) && 0 <= t.typ < len(TypeToID)
  ensures res == sprintf("%s (%d,%d) %s", TypeToID[t.typ], t.lext, t.rext, str_of_runes(row(t.input), off(t.input) + t.lext, t.rext - t.lext))

func (Type).String(t) (res)
  requires 0 <= t < len(TypeToString)
  ensures res == TypeToString[t]

func (Type).ID(t) (res)
  requires 0 <= t < len(TypeToID)
  ensures res == TypeToID[t]

// the tables of the token types: numbers, names and identifiers go together, one each
define tokTables() bool = len(TypeToString) >= 2 && len(TypeToID) == len(TypeToString) && len(Suppress) == len(TypeToString) && TypeToString[0] == "Error" && TypeToString[1] == "EOF" && TypeToID[0] == "Error" && !Suppress[0] && !Suppress[1]
define nameNo() bool = (forall i int :: {TypeToString[i]} 0 <= i < len(TypeToString) ==> TypeToString[i] in StringToType && StringToType[TypeToString[i]] == i) && (forall s string :: {s in StringToType} s in StringToType ==> 0 <= StringToType[s] < len(TypeToString) && TypeToString[StringToType[s]] == s)
define idNo() bool = (forall i int :: {TypeToID[i]} 0 <= i < len(TypeToID) ==> TypeToID[i] in IDToType && IDToType[TypeToID[i]] == i) && (forall s string :: {s in IDToType} s in IDToType ==> 0 <= IDToType[s] < len(TypeToID) && TypeToID[IDToType[s]] == s)
func tables:tokens()
  initial TypeToString, StringToType, TypeToID, IDToType, Suppress
  ensures tokTables()
  ensures nameNo()
  ensures idNo()
