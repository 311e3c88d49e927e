# File layout and piece map (C09, C10)
package filesd

# sum of the first k lengths
spec psum(a "(Array Int Int)", o int, k int) int rec = ite(k <= 0, 0, psum(a, o, k-1) + a[o+k-1])

# none of the first k is negative
spec nneg(a "(Array Int Int)", o int, k int) bool rec = k <= 0 || a[o+k-1] >= 0 && nneg(a, o, k-1)

lemma nneg_all(a "(Array Int Int)", o int, k int, i int)
  requires nneg(a, o, k) && 0 <= i && i < k
  ensures a[o+i] >= 0
  induct k
  use nneg_all(a, o, k - 1, i), nneg(a, o, k)
  props C09 C10 C11
lemma nneg_at(a "(Array Int Int)", o int, k int, j int)
  requires nneg(a, o, k) && o <= j && j < o + k
  ensures a[j] >= 0
  use nneg_all(a, o, k, j - o)
  trigger nneg(a, o, k), a[j]
  props C09 C10 C11
lemma nneg_intro(a "(Array Int Int)", o int, k int)
  requires 0 <= k && forall(i, 0, k, a[o+i] >= 0)
  ensures nneg(a, o, k)
  induct k
  use nneg_intro(a, o, k - 1), nneg(a, o, k)
  trigger nneg(a, o, k)
  props C09 C10 C11
lemma nneg_pre(a "(Array Int Int)", o int, j int, k int)
  requires nneg(a, o, k) && 0 <= j && j <= k
  ensures nneg(a, o, j)
  induct k
  use nneg_pre(a, o, j, k - 1), nneg(a, o, k)
  props C09 C10 C11
lemma psum_step(a "(Array Int Int)", o int, j int, k int)
  requires nneg(a, o, k) && 0 <= j && j <= k
  ensures psum(a, o, j) <= psum(a, o, k)
  induct k
  use psum_step(a, o, j, k - 1), nneg(a, o, k), psum(a, o, k)
  props C09 C10 C11
lemma psum_upto(a "(Array Int Int)", o int, j int, n int)
  requires nneg(a, o, n) && 0 <= j && j <= n
  ensures 0 <= psum(a, o, j) && psum(a, o, j) <= psum(a, o, n)
  use psum_step(a, o, j, n), psum_step(a, o, 0, j), nneg_pre(a, o, j, n), psum(a, o, 0)
  trigger psum(a, o, j), nneg(a, o, n)
  props C10 C11
lemma psum_mono(a "(Array Int Int)", o int, j int, k int, n int)
  requires nneg(a, o, n) && 0 <= j && j <= k && k <= n
  ensures psum(a, o, j) <= psum(a, o, k)
  use psum_step(a, o, j, k), nneg_pre(a, o, k, n)
  trigger psum(a, o, j), psum(a, o, k), nneg(a, o, n)
  only C09
  props C09
lemma psum_ext(a "(Array Int Int)", o int, b "(Array Int Int)", q int, k int)
  requires 0 <= k && forall(i, 0, k, a[o+i] == b[q+i])
  ensures psum(a, o, k) == psum(b, q, k)
  induct k
  use psum_ext(a, o, b, q, k - 1)
  trigger psum(a, o, k), psum(b, q, k)
  props C09 C10 C11

pred elen(s) = col(s, "EntryBase.length")
pred begs(s, i) = psum(elen(s), off(s), i)

# every file occupies the byte range that starts where the previous one ended
pred laidout(fl, P) = forall(i, 0, len(fl), layi(fl, P, i))
pred layi(fl, P, i) = layg(fl, P, i, begs(fl, i), begs(fl, i+1))
pred layg(fl, P, i, s, e) = fl[i].startPieceIdx*P + fl[i].startPieceOff == s && 0 <= fl[i].startPieceOff && fl[i].startPieceOff < P && fl[i].endPieceIdx*P + fl[i].endPieceOff == e - 1 && fl[i].endPieceOff < P && fl[i].endPieceOff >= ite(e == s, 0 - 1, 0)

# files in stream order: neither the first nor the last piece of a file precedes those of an earlier file
pred sortedfl(fl) = forall(a, 0, len(fl), forall(b, a, len(fl), fl[a].startPieceIdx <= fl[b].startPieceIdx && fl[a].endPieceIdx <= fl[b].endPieceIdx))
# the piece is one of those the file's byte range spans
pred touches(fl, i, p) = fl[i].startPieceIdx <= p && p <= fl[i].endPieceIdx

func torrent/filesd.MakeFileEntry(torPath, length) (r)
  ensures r.length == length && r.torPath == torPath && r.localPath == torPath
  opt aux
  props C09 C10

func torrent/filesd.MakeEntryWrapper(en, startIdx, endIdx, startOff, endOff) (r)
  ensures r.EntryBase == en && r.startPieceIdx == startIdx && r.endPieceIdx == endIdx && r.startPieceOff == startOff && r.endPieceOff == endOff
  opt aux
  props C09 C10

func torrent/filesd.MakeFileList(entries, pieceLen) (r)
  requires pieceLen > 0 && nneg(elen(entries), off(entries), len(entries))
  requires begs(entries, len(entries)) + pieceLen < pow2(63)
  loop [i int, fl torrent/filesd.FileList] len(fl) == i
  loop [fl torrent/filesd.FileList] forall(k, 0, len(fl), fl[k].EntryBase == old(entries[k]))
  loop [i int, x int64, o int64] x*pieceLen + o == old(begs(entries, i))
  loop [x int64] 0 <= x
  loop [i int, x int64] x <= old(begs(entries, i))
  loop [i int] 0 <= old(begs(entries, i)) && old(begs(entries, i)) <= old(begs(entries, len(entries)))
  loop [i int] imp(0 <= i && i < len(entries), old(begs(entries, i+1)) == old(begs(entries, i)) + old(entries[i].length))
  loop [o int64] 0 <= o
  loop [o int64] o < pieceLen
  loop [fl torrent/filesd.FileList] forall(k, 0, len(fl), layg(fl, pieceLen, k, old(begs(entries, k)), old(begs(entries, k+1))))
  ensures len(r) == len(entries) && forall(i, 0, len(r), r[i].EntryBase == entries[i])
  loop [x int64, fl torrent/filesd.FileList] forall(k, 0, len(fl), fl[k].startPieceIdx <= x && fl[k].endPieceIdx + ite(pieceLen == 1, 1, 0) <= x)
  loop [fl torrent/filesd.FileList] sortedfl(fl)
  ensures laidout(r, pieceLen)
  ensures sortedfl(r)
  ensures fresh(r) && off(r) == 0
  ensures forall(i, 0, len(r), 0 <= r[i].startPieceIdx && 0 - 1 <= r[i].endPieceIdx)
  loop [fl torrent/filesd.FileList] forall(k, 0, len(fl), 0 <= fl[k].startPieceIdx && 0 - 1 <= fl[k].endPieceIdx)
  props C09

func (torrent/filesd.FileList).GetFiles(fl, piece) (r)
  requires sortedfl(fl)
  loop [i int, s int, n int] 0 <= n && 0 <= s && s + n <= i
  loop [i int, s int, n int] forall(k, 0, i, (s <= k && k < s + n) == touches(fl, k, piece))
  loop [i int, s int, n int] n == 0 || s + n == i
  loop [s int, n int] n == 0 || 0 <= s && s < len(fl) && touches(fl, s, piece)
  loop [i int, s int] forall(k, 0, i, imp(k < s, !touches(fl, k, piece)))
  loop [i int, n int] n != 0 || forall(k, 0, i, !touches(fl, k, piece))
  loop [n int, h bool] h == (n > 0)
  ensures len(r) == 0 || obj(r) == obj(fl) && off(r) >= off(fl) && off(r) + len(r) <= off(fl) + len(fl)
  ensures len(r) == 0 || forall(k, 0, len(fl), (off(r) <= off(fl) + k && off(fl) + k < off(r) + len(r)) == touches(fl, k, piece))
  ensures len(r) != 0 || forall(k, 0, len(fl), !touches(fl, k, piece))
  props C09

# bytes of a file are the positions fbeg..fend-1 of the torrent's stream
pred fbeg(e, P) = e.startPieceIdx*P + e.startPieceOff
pred fend(e, P) = e.endPieceIdx*P + e.endPieceOff + 1

func (*torrent/filesd.Entry).StartPiece(few) (r)
  requires few != nil
  ensures r == few.startPieceIdx
  props C09 C10
func (*torrent/filesd.Entry).EndPiece(few) (r)
  requires few != nil
  ensures r == few.endPieceIdx
  props C09 C10
func (*torrent/filesd.Entry).StartPieceOff(few) (r)
  requires few != nil
  ensures r == few.startPieceOff
  props C09 C10
func (*torrent/filesd.Entry).EndPieceOff(few) (r)
  requires few != nil
  ensures r == few.endPieceOff
  props C09 C10

func (*torrent/filesd.Entry).PieceInfo(few, index, pieceLen) (r, err)
  requires few != nil && pieceLen > 0
  requires 0 <= few.startPieceIdx && 0 <= few.startPieceOff && few.startPieceOff < pieceLen && 0 - 1 <= few.endPieceOff && few.endPieceOff < pieceLen
  requires fend(few, pieceLen) + pieceLen <= pow2(63)
  loop [k int64, o int64, s int64] s + fbeg(few, pieceLen) == k*pieceLen + o
  loop [k int64, o int64] o == ite(k == few.startPieceIdx, few.startPieceOff, 0)
  loop [k int64] few.startPieceIdx <= k && k <= index
  ensures (err == nil) == (few.startPieceIdx <= index && index <= few.endPieceIdx)
  ensures imp(err == nil, r.SeekAmnt == max(0, index*pieceLen - fbeg(few, pieceLen)))
  ensures imp(err == nil, r.ReadAmnt == min((index+1)*pieceLen, fend(few, pieceLen)) - max(index*pieceLen, fbeg(few, pieceLen)))
  props C10
