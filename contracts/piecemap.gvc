# Piece map (C10)
package info

# The first n locations cover exactly the stream positions b..e-1, in order, each inside its file.
# (eo, ei: the files pointed to; sk, rd: seek and read amounts; all indexed from o; file lengths le, from fo;
# the file list is the object fobj and has nf entries)
pred lpos(ei, sk, k, le, fo) = psum(le, fo, ei[k] - fo) + sk[k]
pred lin(eo, ei, sk, rd, k, le, fo, nf, fobj) = eo[k] == fobj && fo <= ei[k] && ei[k] < fo + nf && 0 <= sk[k] && 0 <= rd[k] && sk[k] + rd[k] <= le[ei[k]]
spec cov(eo "(Array Int Int)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int, le "(Array Int Int)", fo int, nf int, fobj int, b int, e int) bool rec = ite(n <= 0, b == e, lin(eo, ei, sk, rd, o+n-1, le, fo, nf, fobj) && e == lpos(ei, sk, o+n-1, le, fo) + rd[o+n-1] && cov(eo, ei, sk, rd, o, n-1, le, fo, nf, fobj, b, lpos(ei, sk, o+n-1, le, fo)))
lemma cov_ext(eo "(Array Int Int)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int, le "(Array Int Int)", fo int, nf int, fobj int, b int, e int, EO "(Array Int Int)", EI "(Array Int Int)", SK "(Array Int Int)", RD "(Array Int Int)", O int)
  requires 0 <= n && cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e) && forall(k, 0, n, EO[O+k] == eo[o+k] && EI[O+k] == ei[o+k] && SK[O+k] == sk[o+k] && RD[O+k] == rd[o+k])
  ensures cov(EO, EI, SK, RD, O, n, le, fo, nf, fobj, b, e)
  induct n
  use cov_ext(eo, ei, sk, rd, o, n-1, le, fo, nf, fobj, b, lpos(ei, sk, o+n-1, le, fo), EO, EI, SK, RD, O)
  props C10
# adding a location that continues the others
lemma cov_push(eo "(Array Int Int)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int, le "(Array Int Int)", fo int, nf int, fobj int, b int, m int, EO "(Array Int Int)", EI "(Array Int Int)", SK "(Array Int Int)", RD "(Array Int Int)", O int, N int, e int)
  requires 0 <= n && cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, m) && N == n + 1
  requires forall(k, 0, n, EO[O+k] == eo[o+k] && EI[O+k] == ei[o+k] && SK[O+k] == sk[o+k] && RD[O+k] == rd[o+k])
  requires lin(EO, EI, SK, RD, O+n, le, fo, nf, fobj) && m == lpos(EI, SK, O+n, le, fo) && e == m + RD[O+n]
  ensures cov(EO, EI, SK, RD, O, N, le, fo, nf, fobj, b, e)
  use cov_ext(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, m, EO, EI, SK, RD, O)
  trigger cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, m), cov(EO, EI, SK, RD, O, N, le, fo, nf, fobj, b, e)
  props C10
lemma cov_le(eo "(Array Int Int)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int, le "(Array Int Int)", fo int, nf int, fobj int, b int, e int)
  requires 0 <= n && cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e)
  ensures b <= e
  induct n
  use cov_le(eo, ei, sk, rd, o, n-1, le, fo, nf, fobj, b, lpos(ei, sk, o+n-1, le, fo))
  props C10
lemma cov_prefix(eo "(Array Int Int)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int, le "(Array Int Int)", fo int, nf int, fobj int, b int, e int, i int)
  requires 0 <= i && i < n && cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e)
  ensures lin(eo, ei, sk, rd, o+i, le, fo, nf, fobj) && cov(eo, ei, sk, rd, o, i, le, fo, nf, fobj, b, lpos(ei, sk, o+i, le, fo)) && b <= lpos(ei, sk, o+i, le, fo) && lpos(ei, sk, o+i, le, fo) + rd[o+i] <= e
  induct n
  use cov_prefix(eo, ei, sk, rd, o, n-1, le, fo, nf, fobj, b, lpos(ei, sk, o+n-1, le, fo), i), cov_prefix(eo, ei, sk, rd, o, n-1, le, fo, nf, fobj, b, lpos(ei, sk, o+n-1, le, fo), i-1), cov_le(eo, ei, sk, rd, o, n-1, le, fo, nf, fobj, b, lpos(ei, sk, o+n-1, le, fo))
  props C10
pred covers(s, fl, b, e) = cov(col(s, "Entry.obj"), col(s, "Entry.idx"), col(s, "SeekAmnt"), col(s, "ReadAmnt"), off(s), len(s), elen(fl), off(fl), len(fl), obj(fl), b, e)

func torrent/info.MakePieceMap(fl, npieces, pieceLen, totalLen) (r, err)
  requires pieceLen > 0 && npieces >= 0 && totalLen == begs(fl, len(fl)) && totalLen <= npieces*pieceLen
  requires totalLen + pieceLen < pow2(63) && npieces <= pow2(48)
  requires laidout(fl, pieceLen) && sortedfl(fl) && nneg(elen(fl), off(fl), len(fl)) && forall(i, 0, len(fl), 0 <= fl[i].startPieceIdx && 0 - 1 <= fl[i].endPieceIdx)
  loop [x int64@pieceIdx] 0 <= x && x <= npieces
  loop [any i int@rangeindex, x int64@pieceIdx] imp(x <= fl[i].endPieceIdx, x < npieces)
  loop [e int64@pieceRem] 0 < e && e <= pieceLen
  loop [x int64@pieceIdx, e int64@pieceRem, t int64@totalCounted] t + e == (x+1)*pieceLen
  loop [i int@rangeindex, t int64@totalCounted] t == begs(fl, i)
  loop [any i int@rangeindex, t int64@totalCounted] begs(fl, i) <= t && t <= begs(fl, i+1)
  loop [any i int@rangeindex, x int64@pieceIdx] fl[i].startPieceIdx <= x && x <= fl[i].endPieceIdx + 1
  loop [any i int@rangeindex, e int64@pieceRem, t int64@totalCounted] t == begs(fl, i) || e == pieceLen
  loop [any i int@rangeindex, any fe *torrent/filesd.Entry@fe] *fe == fl[i]
  loop {C10} [x int64@pieceIdx, any m torrent/info.PieceMap] forall(p, 0, x, covers(m[p], fl, p*pieceLen, (p+1)*pieceLen))
  loop {C10} [x int64@pieceIdx, t int64@totalCounted, any m torrent/info.PieceMap] imp(x < npieces, covers(m[x], fl, x*pieceLen, t))
  loop [x int64@pieceIdx, any m torrent/info.PieceMap] forall(p, x + 1, npieces, len(m[p]) == 0 && cap(m[p]) == 0)
  loop [any m torrent/info.PieceMap] forall(p, 0, npieces, 0 <= len(m[p]) && len(m[p]) <= cap(m[p]) && imp(cap(m[p]) > 0, fresh(m[p]) && alive(m[p]) && obj(m[p]) != obj(m)))
  loop [any m torrent/info.PieceMap] forall(p, 0, npieces, forall(q, 0, p, imp(cap(m[p]) > 0 && cap(m[q]) > 0, obj(m[p]) != obj(m[q]))))
  measure [any fe *torrent/filesd.Entry@fe, x int64@pieceIdx] fe.endPieceIdx + 1 - x
  ensures err == nil
  ensures imp(err == nil, len(r) == npieces)
  ensures {C10} imp(err == nil, forall(p, 0, npieces, imp(p*pieceLen < totalLen, covers(r[p], fl, p*pieceLen, min((p+1)*pieceLen, totalLen)))))
  props C10

func (*torrent/info.TorInfo).PieceLookup(ti, index) (r, err)
  requires ti != nil && ti.numPieces == len(ti.pm)
  ensures (err == nil) == (0 <= index && index < ti.numPieces)
  ensures imp(err == nil, r == ti.pm[index])
  ensures imp(err != nil, len(r) == 0)
  props C10 C15

func (torrent/info.PieceLocation).ReadAmnt(pl) (r)
  ensures r == pl.Loc.ReadAmnt
  props C10
func (torrent/info.PieceLocation).SeekAmnt(pl) (r)
  ensures r == pl.Loc.SeekAmnt
  props C10
