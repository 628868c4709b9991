package github.com/goccmack/gogll/v3/gen/golang/utils

define escOf(r int) string = ite(r == '"', "\\\"", ite(r == '\\', "\\\\", ite(r == '\r', "\\r", ite(r == '\n', "\\n", ite(r == '\t', "\\t", strofrune(r))))))
// the first n runes of s, escaped
rec escs(s string, n int) string = ite(n <= 0, "", escs(s, n-1) + escOf(rat(s, n-1)))

func EscapeRune(r) (res)
  ensures res == escOf(r)

func Escape(s) (res)
  ensures res == escs(s, rlen(s))
  loop 1
    invariant forall i int :: {$coll[i]} 0 <= i < len($coll) ==> $coll[i] == rat(s, i)
    invariant arr(ers) != arr($coll)
    invariant runestr(ers) == escs(s, $i) && fresh(arr(ers))
