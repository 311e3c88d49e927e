# Size options (C27)
package utils

pred digit(c) = 48 <= c && c <= 57
# value of the decimal digits s[p..e)
spec dv(s Str, p int, e int) int rec = ite(e <= p, 0, 10*dv(s, p, e-1) + s[e-1] - 48)
pred up(c) = ite(97 <= c && c <= 122, c - 32, c)

# assumed: what the standard library does (strings.ToUpper maps every non-ASCII
# character to something containing a byte outside [-0-9BKMG]: only the dotless i
# and the long s map to ASCII, to I and S)
smt (declare-fun s_upper (Str) Str)
axiom upper_ascii(s Str)
  requires forall(i, 0, len(s), s[i] < 128)
  ensures len(s_upper(s)) == len(s) && forall(i, 0, len(s), s_upper(s)[i] == up(s[i]))
  trigger s_upper(s)
axiom upper_other(s Str)
  requires exists(i, 0, len(s), s[i] >= 128)
  ensures exists(i, 0, len(s_upper(s)), s_upper(s)[i] >= 128 || s_upper(s)[i] == 73 || s_upper(s)[i] == 83)
  trigger s_upper(s)
trusted strings.ToUpper(s) (r)
  ensures r == s_upper(s)
pred sg(t) = ite(t[0] == 45 || t[0] == 43, 1, 0)
pred atoiok(t) = len(t) > sg(t) && forall(k, sg(t), len(t), digit(t[k]))
pred atoival(t) = ite(t[0] == 45, 0 - dv(t, 1, len(t)), dv(t, sg(t), len(t)))
trusted strconv.Atoi(t) (r, err)
  ensures iff(err == nil, atoiok(t) && 0 - pow2(63) <= atoival(t) && atoival(t) < pow2(63))
  ensures imp(err == nil, r == atoival(t))
trusted strconv.ParseInt(t, base, bits) (r, err)
  ensures imp(base == 10 && (bits == 64 || bits == 0), iff(err == nil, atoiok(t) && 0 - pow2(63) <= atoival(t) && atoival(t) < pow2(63)))
  ensures imp(err == nil && base == 10, r == atoival(t))

pred endnum(s) = ite(digit(s[len(s)-1]), len(s), len(s) - 1)
pred neg(s) = ite(s[0] == 45, 1, 0)
pred unitok(c) = c == 66 || c == 75 || c == 77 || c == 71
pred unitval(c) = ite(up(c) == 75, 1024, ite(up(c) == 77, 1048576, ite(up(c) == 71, 1073741824, 1)))
# an optional minus sign, at least one digit, at most one unit letter
pred sizeform(s) = len(s) > 0 && endnum(s) > neg(s) && forall(i, neg(s), endnum(s), digit(s[i])) && (endnum(s) == len(s) || unitok(up(s[endnum(s)])))
pred sizeval(s) = ite(s[0] == 45, 0 - 1, 1) * dv(s, neg(s), endnum(s)) * ite(endnum(s) == len(s), 1, unitval(s[endnum(s)]))

lemma dvext(s Str, t Str, p int, e int)
  requires 0 <= p && p <= e && forall(k, p, e, s[k] == t[k])
  ensures dv(s, p, e) == dv(t, p, e)
  induct e
  use dvext(s, t, p, e - 1)
  props C27

func utils.parseSizeUnits(str) (r, err)
  let u = s_upper(str)
  let e = endnum(str)
  loop [i int] neg(u) <= i && forall(k, neg(u), i, digit(u[k]))
  loop [i int, any sb *strings.Builder] content(sb) == sub(u, 0, i)
  loop [i int, any sb *strings.Builder] content(sb) == sub(u, neg(u), i)
  use dvext(sub(u, 0, e), str, neg(str), e)
  ensures iff(err == nil, sizeform(str) && 0 - pow2(63) <= sizeval(str) && sizeval(str) < pow2(63))
  ensures imp(err == nil, r == sizeval(str))
  props C27

pred sizeopt(s, v) = sizeform(s) && v == sizeval(s) && 0 - pow2(63) <= v && v < pow2(63)
func (*utils.Opts).Validate(o) (err)
  requires o != nil && o == utils.opts && o.input != nil && o.cmd != nil && o.uplimStr != nil && o.dnlimStr != nil
  modifies o.uplim, o.dnlim
  ensures imp(err == nil, sizeopt(*o.uplimStr, o.uplim) && sizeopt(*o.dnlimStr, o.dnlim))
  props C27
func (*utils.Opts).UpLimit(o) (r)
  ensures r == o.uplim
  props C27
func (*utils.Opts).DnLimit(o) (r)
  ensures r == o.dnlim
  props C27
