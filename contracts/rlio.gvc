# Rate-limited I/O (C26)
package io

# calls made on io.Writer / io.Reader values: how many, on which, with which data or buffer
ghost wcalls "Int"
ghost wto "Iface"
ghost wbytes "Str"
ghost werr "Iface"
ghost rcalls "Int"
ghost rfrom "Iface"
ghost rbufo "Int"
ghost rbufi "Int"
ghost rbufn "Int"
ghost rerr "Iface"
trusted io.Writer.Write(w, p) (n, err)
  modifies wcalls, wto, wbytes, werr
  ensures wcalls == old(wcalls) + 1 && wto == w && wbytes == str(p) && werr == err && 0 <= n && n <= len(p)
trusted io.Reader.Read(r, p) (n, err)
  modifies rcalls, rfrom, rbufo, rbufi, rbufn, rerr, elems(p)
  ensures rcalls == old(rcalls) + 1 && rfrom == r && rbufo == obj(p) && rbufi == off(p) && rbufn == len(p) && rerr == err && 0 <= n && n <= len(p)

pred wrap64(x) = (x + pow2(63)) % pow2(64) - pow2(63)

func (*io.RateLimitIO).Write(rl, writer, data) (err)
  requires writer != nil
  modifies wcalls, wto, wbytes, werr, rl.wUsed, rl.wTotal
  ensures wcalls == old(wcalls) + 1 && wto == writer && wbytes == old(str(data)) && err == werr
  ensures imp(rl.wRate != 0 - 1, old(rl.wUsed) < rl.wRate)
  ensures rl.wUsed == wrap64(old(rl.wUsed) + len(data))
  diverges
  props C26

func (*io.RateLimitIO).Read(rl, reader, buf) (err)
  requires reader != nil
  modifies rcalls, rfrom, rbufo, rbufi, rbufn, rerr, elems(buf), rl.rUsed, rl.rTotal
  ensures rcalls == old(rcalls) + 1 && rfrom == reader && rbufo == obj(buf) && rbufi == off(buf) && rbufn == len(buf) && err == rerr
  ensures imp(rl.rRate != 0 - 1, old(rl.rUsed) < rl.rRate)
  ensures rl.rUsed == wrap64(old(rl.rUsed) + len(buf))
  diverges
  props C26

func (*io.RateLimitIO).SetReadRate(rl, limit) ()
  modifies rl.rRate
  ensures rl.rRate == max(limit, 0 - 1)
  props C26
func (*io.RateLimitIO).SetWriteRate(rl, limit) ()
  modifies rl.wRate
  ensures rl.wRate == max(limit, 0 - 1)
  props C26
func io.NewRateLimitIO() (r)
  ensures r != nil && fresh(r) && r.rRate == 0 - 1 && r.wRate == 0 - 1 && r.rUsed == 0 && r.wUsed == 0
  props C26
