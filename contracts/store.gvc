# Files on disk (C15)
package fileio

# the contents of the files, by path; the path each open file was opened with
ghost disk "(Array Str Str)"
ghost fpath "(Array Int Str)"

trusted (*os.File).ReadAt(f, b, o) (n, e)
  modifies elems(b)
  ensures 0 <= n && n <= len(b)
  ensures imp(e == nil, n == len(b) && 0 <= o && imp(n > 0, o + n <= len(disk[fpath[obj(f)]])) && str(b) == sub(disk[fpath[obj(f)]], o, o + n))
# every path but f's is as before, and so is every byte of f outside the range
pred diskframe(d, D, p, o, n) = forall(q, "Str", imp(q != p, D[q] == d[q]), D[q]) && forall(k, 0, len(d[p]), imp(k < o || k >= o + n, D[p][k] == d[p][k])) && ite(o + n <= len(d[p]), len(D[p]) == len(d[p]), len(D[p]) >= len(d[p]))
trusted (*os.File).WriteAt(f, b, o) (n, e)
  modifies disk
  ensures 0 <= n && n <= len(b) && diskframe(old(disk), disk, fpath[obj(f)], o, len(b))
  ensures imp(e == nil, n == len(b) && 0 <= o && imp(n > 0, o + n <= len(disk[fpath[obj(f)]])) && sub(disk[fpath[obj(f)]], o, o + n) == str(b))

# every open file is registered under its path
pred wffio(fio) = wflfps(fio) && imp(len(fio.torInfo.flist) > 0, obj(fio.torInfo.flist) > 0) && fio.torInfo != nil && wfti(fio.torInfo)
pred wflfps(fio) = fio != nil && forall(p, "Str", imp(has(fio.lfps, p), fio.lfps[p] != nil && alive(fio.lfps[p]) && fio.lfps[p].fp != nil && alive(fio.lfps[p].fp) && fpath[obj(fio.lfps[p].fp)] == p), fio.lfps[p])

func (*torrent/fileio.FileIO).read(fio, path, seek, buf) (n, e)
  requires wflfps(fio)
  modifies elems(buf)
  ensures 0 <= n && n <= len(buf)
  ensures imp(e == nil, n == len(buf) && 0 <= seek && imp(n > 0, seek + n <= len(disk[path])) && str(buf) == sub(disk[path], seek, seek + n))
  props C15

func (*torrent/fileio.FileIO).write(fio, path, seek, data) (n, e)
  requires wflfps(fio)
  modifies disk
  ensures 0 <= n && n <= len(data) && diskframe(old(disk), disk, path, seek, len(data))
  ensures imp(e == nil, n == len(data) && 0 <= seek && imp(n > 0, seek + n <= len(disk[path])) && sub(disk[path], seek, seek + n) == str(data))
  props C15

# the bytes at the first n locations (entries ei with local paths lp, seek and read amounts), in order
spec pread(d "(Array Str Str)", lp "(Array Int Str)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int) Str rec = ite(n <= 0, "", cat(pread(d, lp, ei, sk, rd, o, n-1), sub(d[lp[ei[o+n-1]]], sk[o+n-1], sk[o+n-1] + rd[o+n-1])))
# byte k of file q is at one of the first n locations
spec inloc(lp "(Array Int Str)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int, q Str, k int) bool rec = n > 0 && (inloc(lp, ei, sk, rd, o, n-1, q, k) || lp[ei[o+n-1]] == q && sk[o+n-1] <= k && k < sk[o+n-1] + rd[o+n-1])
# only bytes at those locations differ
pred untouched(d, D, lp, ei, sk, rd, o, n) = forall(q, "Str", len(D[q]) == len(d[q]) && forall(k, 0, len(d[q]), imp(!inloc(lp, ei, sk, rd, o, n, q, k), D[q][k] == d[q][k])), D[q])
pred lps(ti) = col(ti.flist, "EntryBase.localPath")
# the files have different paths and are long enough
pred distinctl(lp, fo, nf) = forall(x, fo, fo+nf, forall(y, fo, x, lp[x] != lp[y]))
pred preparedl(d, lp, le, fo, nf) = forall(x, fo, fo+nf, le[x] <= len(d[lp[x]]))
pred wffiles(d, ti) = distinctl(lps(ti), off(ti.flist), len(ti.flist)) && preparedl(d, lps(ti), elen(ti.flist), off(ti.flist), len(ti.flist))
pred lei(pl) = col(pl, "Entry.idx")
pred lsk(pl) = col(pl, "SeekAmnt")
pred lrd(pl) = col(pl, "ReadAmnt")
# the bytes of piece i
pred pbytes(d, ti, pl) = pread(d, lps(ti), lei(pl), lsk(pl), lrd(pl), off(pl), len(pl))
pred puntouched(d, D, ti, pl) = untouched(d, D, lps(ti), lei(pl), lsk(pl), lrd(pl), off(pl), len(pl))

func utils.SHA1(data) (r)
  ensures r == sha1(str(data)) && len(r) == 20
  props C15
func (*torrent/info.TorInfo).PieceHash(ti, i) (r)
  requires 0 <= i && 20*i + 20 <= len(ti.hashes)
  ensures r == sub(ti.hashes, 20*i, 20*i + 20)
  props C15

# locations continue each other
lemma cov_at(eo "(Array Int Int)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int, le "(Array Int Int)", fo int, nf int, fobj int, b int, e int, i int, x int)
  requires 0 <= i && i < n && cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e) && cov(eo, ei, sk, rd, o, i, le, fo, nf, fobj, b, x)
  ensures lin(eo, ei, sk, rd, o+i, le, fo, nf, fobj) && x == lpos(ei, sk, o+i, le, fo) && b <= x && x + rd[o+i] <= e
  use cov_prefix(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e, i), cov(eo, ei, sk, rd, o, i, le, fo, nf, fobj, b, x), cov(eo, ei, sk, rd, o, i, le, fo, nf, fobj, b, lpos(ei, sk, o+i, le, fo))
  trigger cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e), cov(eo, ei, sk, rd, o, i, le, fo, nf, fobj, b, x)
  only C15 C17 C22
  props C15

lemma inloc_frame(d "(Array Str Str)", D "(Array Str Str)", E "(Array Str Str)", lp "(Array Int Str)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int)
  requires 0 <= n && untouched(d, D, lp, ei, sk, rd, o, n) && diskframe(D, E, lp[ei[o+n]], sk[o+n], rd[o+n]) && sk[o+n] + rd[o+n] <= len(d[lp[ei[o+n]]])
  ensures untouched(d, E, lp, ei, sk, rd, o, n+1)
  props C15
lemma pread_step(d "(Array Str Str)", D "(Array Str Str)", lp "(Array Int Str)", eo "(Array Int Int)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int, le "(Array Int Int)", fo int, nf int, fobj int, b int, e int, i int, m int)
  requires 0 <= m && m <= i && i < n && cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e)
  requires distinctl(lp, fo, nf) && preparedl(d, lp, le, fo, nf)
  requires diskframe(d, D, lp[ei[o+i]], sk[o+i], rd[o+i])
  ensures pread(D, lp, ei, sk, rd, o, m) == pread(d, lp, ei, sk, rd, o, m)
  induct m
  use pread_step(d, D, lp, eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e, i, m-1)
  use cov_prefix(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e, i), cov_prefix(eo, ei, sk, rd, o, i, le, fo, nf, fobj, b, lpos(ei, sk, o+i, le, fo), m-1)
  props C15
lemma pread_keep(d "(Array Str Str)", D "(Array Str Str)", lp "(Array Int Str)", eo "(Array Int Int)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, n int, le "(Array Int Int)", fo int, nf int, fobj int, b int, e int, i int, N int)
  requires 0 <= i && i < n && N == i + 1 && cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e)
  requires distinctl(lp, fo, nf) && preparedl(d, lp, le, fo, nf)
  requires diskframe(d, D, lp[ei[o+i]], sk[o+i], rd[o+i])
  ensures pread(D, lp, ei, sk, rd, o, N) == cat(pread(d, lp, ei, sk, rd, o, i), sub(D[lp[ei[o+i]]], sk[o+i], sk[o+i] + rd[o+i]))
  use pread_step(d, D, lp, eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e, i, i), pread(D, lp, ei, sk, rd, o, N)
  trigger cov(eo, ei, sk, rd, o, n, le, fo, nf, fobj, b, e), pread(D, lp, ei, sk, rd, o, N), pread(d, lp, ei, sk, rd, o, i)
  props C15
# the length of piece i
lemma plen_eq(P int, N int, L int, last int, i int)
  requires 0 < P && 0 <= i && i < N && 0 < last && last <= P && L == (N-1)*P + last
  ensures min((i+1)*P, L) - i*P == ite(i == N-1, last, P)
  props C15

# the locations of piece i cover its bytes (wfmap, C10)
pred wfpiece(ti, i) = covers(ti.pm[i], ti.flist, i*ti.pieceLen, min((i+1)*ti.pieceLen, ti.length))
pred pbeg(ti, i) = i*ti.pieceLen
pred pend_(ti, i) = min((i+1)*ti.pieceLen, ti.length)
pred pcov(ti, pl, n, b, e) = cov(col(pl, "Entry.obj"), lei(pl), lsk(pl), lrd(pl), off(pl), n, elen(ti.flist), off(ti.flist), len(ti.flist), obj(ti.flist), b, e)
pred pfirst(d, ti, pl, n) = pread(d, lps(ti), lei(pl), lsk(pl), lrd(pl), off(pl), n)
func (*torrent/fileio.FileIO).ReadPiece(fio, index, buf) (n, err)
  requires wffio(fio) && imp(0 <= index && index < fio.torInfo.numPieces, wfpiece(fio.torInfo, index) && len(buf) >= plen(fio.torInfo, index))
  modifies elems(buf)
  use plen_eq(fio.torInfo.pieceLen, fio.torInfo.numPieces, fio.torInfo.length, fio.torInfo.lastPieceLen, index)
  loop [i int@rangeindex, x int64@offset] old(pcov(fio.torInfo, fio.torInfo.pm[index], i, pbeg(fio.torInfo, index), pbeg(fio.torInfo, index) + x))
  loop [x int64@offset] 0 <= x && x <= old(pend_(fio.torInfo, index) - pbeg(fio.torInfo, index))
  loop [i int@rangeindex, x int64@offset] old(pfirst(disk, fio.torInfo, fio.torInfo.pm[index], i)) == sub(str(buf), 0, x)
  ensures imp(err == nil, 0 <= index && index < fio.torInfo.numPieces && n == plen(fio.torInfo, index))
  ensures imp(err == nil, str(buf[:n]) == old(pbytes(disk, fio.torInfo, fio.torInfo.pm[index])))
  props C15


lemma inloc_mono(lp "(Array Int Str)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, m int, n int, q Str, k int)
  requires m <= n && inloc(lp, ei, sk, rd, o, m, q, k)
  ensures inloc(lp, ei, sk, rd, o, n, q, k)
  induct n
  use inloc_mono(lp, ei, sk, rd, o, m, n-1, q, k)
  trigger inloc(lp, ei, sk, rd, o, m, q, k), inloc(lp, ei, sk, rd, o, n, q, k)
  props C15

lemma inloc_at(lp "(Array Int Str)", ei "(Array Int Int)", sk "(Array Int Int)", rd "(Array Int Int)", o int, m int, n int, q Str, k int)
  requires 0 <= m && m < n && lp[ei[o+m]] == q && sk[o+m] <= k && k < sk[o+m] + rd[o+m]
  ensures inloc(lp, ei, sk, rd, o, n, q, k)
  use inloc(lp, ei, sk, rd, o, m+1, q, k), inloc_mono(lp, ei, sk, rd, o, m+1, n, q, k)
  trigger inloc(lp, ei, sk, rd, o, m, q, k), inloc(lp, ei, sk, rd, o, n, q, k)
  props C15

func (*torrent/fileio.FileIO).WritePiece(fio, index, data) (n, err)
  requires wffio(fio) && imp(0 <= index && index < fio.torInfo.numPieces, wfpiece(fio.torInfo, index)) && wffiles(disk, fio.torInfo)
  modifies disk
  use plen_eq(fio.torInfo.pieceLen, fio.torInfo.numPieces, fio.torInfo.length, fio.torInfo.lastPieceLen, index)
  let good = 0 <= index && index < fio.torInfo.numPieces && sha1(str(data)) == sub(fio.torInfo.hashes, 20*index, 20*index + 20) && len(data) == plen(fio.torInfo, index)
  let lp = lps(fio.torInfo)
  let ei = lei(fio.torInfo.pm[index])
  let sk = lsk(fio.torInfo.pm[index])
  let rd = lrd(fio.torInfo.pm[index])
  let o = off(fio.torInfo.pm[index])
  let m = len(fio.torInfo.pm[index])
  let le = elen(fio.torInfo.flist)
  let fo = off(fio.torInfo.flist)
  let nf = len(fio.torInfo.flist)
  loop [i int@rangeindex, x int64@offset|pieceLen] old(pcov(fio.torInfo, fio.torInfo.pm[index], i, pbeg(fio.torInfo, index), pbeg(fio.torInfo, index) + x))
  loop [x int64@offset|pieceLen] 0 <= x && x <= old(pend_(fio.torInfo, index) - pbeg(fio.torInfo, index))
  loop [i int@rangeindex, x int64@offset] pread(disk, lp, ei, sk, rd, o, i) == sub(str(data), 0, x)
  loop preparedl(disk, lp, le, fo, nf)
  loop [i int@rangeindex] untouched(old(disk), disk, lp, ei, sk, rd, o, i)
  ensures imp(err == nil, good && n == len(data))
  ensures imp(!good, err != nil && disk == old(disk))
  ensures imp(err == nil, pread(disk, lp, ei, sk, rd, o, m) == str(data))
  ensures imp(good, untouched(old(disk), disk, lp, ei, sk, rd, o, m))
  props C15

# File preparation (C16)
package utils
# which paths have a file; the position of each open file
ghost fexist "(Array Str Bool)"
ghost fpos "(Array Int Int)"
smt (declare-fun fisize (Iface) Int)
smt (declare-fun enoent (Iface) Bool)
pred flagset(flag, bit) = (flag / bit) % 2 == 1
pred samefiles(d, D, p) = forall(q, "Str", imp(q != p, D[q] == d[q]), D[q])
pred sameex(d, D, p) = forall(q, "Str", imp(q != p, D[q] == d[q]), D[q])
trusted os.OpenFile(name, flag, perm) (f, e)
  modifies disk, fexist, fpath, fpos
  ensures forall(o, "Int", imp(o != obj(f), fpath[o] == old(fpath)[o]), fpath[o]) && forall(o, "Int", imp(o != obj(f), fpos[o] == old(fpos)[o]), fpos[o])
  ensures samefiles(old(disk), disk, name) && sameex(old(fexist), fexist, name)
  ensures imp(e == nil, f != nil && fresh(f) && fpath[obj(f)] == name && fpos[obj(f)] == 0 && fexist[name] && (old(fexist)[name] || flagset(flag, 64)) && disk[name] == ite(old(fexist)[name] && !flagset(flag, 512), old(disk)[name], ""))
  ensures imp(e != nil, f == nil && disk == old(disk) && fexist == old(fexist) && imp(enoent(e), !fexist[name]))
trusted os.Create(name) (f, e)
  modifies disk, fexist, fpath, fpos
  ensures forall(o, "Int", imp(o != obj(f), fpath[o] == old(fpath)[o]), fpath[o]) && forall(o, "Int", imp(o != obj(f), fpos[o] == old(fpos)[o]), fpos[o])
  ensures samefiles(old(disk), disk, name) && sameex(old(fexist), fexist, name)
  ensures imp(e == nil, f != nil && fresh(f) && fpath[obj(f)] == name && fpos[obj(f)] == 0 && fexist[name] && disk[name] == "")
  ensures imp(e != nil, f == nil && disk == old(disk) && fexist == old(fexist))
trusted os.IsNotExist(e) (r)
  ensures r == enoent(e)
trusted errors.Is(e, t) (r)
  ensures imp(t == os.ErrNotExist, r == enoent(e))
trusted os.MkdirAll(path, perm) (e)
trusted path/filepath.Dir(path) (r)
trusted (*os.File).Stat(f) (fi, e)
  ensures imp(e == nil, fi != nil && fisize(fi) == len(disk[fpath[obj(f)]]))
trusted io/fs.FileInfo.Size(fi) (r)
  ensures r == fisize(fi)
trusted (*os.File).Truncate(f, n) (e)
  modifies disk
  ensures samefiles(old(disk), disk, fpath[obj(f)])
  ensures imp(e != nil, disk == old(disk))
  ensures imp(e == nil, 0 <= n && len(disk[fpath[obj(f)]]) == n && forall(k, 0, n, disk[fpath[obj(f)]][k] == ite(k < len(old(disk)[fpath[obj(f)]]), old(disk)[fpath[obj(f)]][k], 0)))
trusted (*os.File).Seek(f, off, whence) (r, e)
  modifies fpos
  ensures forall(o, "Int", imp(o != obj(f), fpos[o] == old(fpos)[o]), fpos[o])
  ensures imp(e == nil, 0 <= r && r == fpos[obj(f)] && r == off + ite(whence == 0, 0, ite(whence == 1, old(fpos)[obj(f)], len(disk[fpath[obj(f)]]))))
trusted (*os.File).Write(f, b) (n, e)
  modifies disk, fpos
  ensures forall(o, "Int", imp(o != obj(f), fpos[o] == old(fpos)[o]), fpos[o])
  ensures 0 <= n && n <= len(b) && diskframe(old(disk), disk, fpath[obj(f)], old(fpos)[obj(f)], len(b))
  ensures imp(e == nil, n == len(b) && fpos[obj(f)] == old(fpos)[obj(f)] + n && imp(n > 0, fpos[obj(f)] <= len(disk[fpath[obj(f)]])) && sub(disk[fpath[obj(f)]], old(fpos)[obj(f)], fpos[obj(f)]) == str(b) && forall(k, old(fpos)[obj(f)], fpos[obj(f)], disk[fpath[obj(f)]][k] == str(b)[k - old(fpos)[obj(f)]]) && len(disk[fpath[obj(f)]]) == max(len(old(disk)[fpath[obj(f)]]), ite(n == 0, 0, fpos[obj(f)])))

# t is s followed by n zero bytes
pred zeroext(s, t, n) = len(t) == len(s) + n && forall(k, 0, len(t), t[k] == ite(k < len(s), s[k], 0))

func utils.AppendZeros(fp, amnt) (e)
  requires fp != nil && 0 <= amnt
  modifies disk, fpos
  let p = fpath[obj(fp)]
  loop [l int64@left] 0 <= l && l <= amnt
  loop [l int64@left] zeroext(old(disk)[p], disk[p], amnt - l)
  loop samefiles(old(disk), disk, p)
  loop [l int64@left] fpos[obj(fp)] == len(disk[p])
  loop forall(o, "Int", imp(o != obj(fp), fpos[o] == old(fpos)[o]), fpos[o])
  ensures samefiles(old(disk), disk, p) && forall(o, "Int", imp(o != obj(fp), fpos[o] == old(fpos)[o]), fpos[o])
  ensures imp(e == nil, zeroext(old(disk)[p], disk[p], amnt))
  ensures len(old(disk)[p]) <= len(disk[p]) && forall(k, 0, len(old(disk)[p]), disk[p][k] == old(disk)[p][k])
  props C16

# what a prepared file holds: n bytes, those of the file before (if there was one), then zeros
pred kept(d, ex, D, q, n) = len(D[q]) == n && forall(k, 0, n, D[q][k] == ite(ex[q] && k < len(d[q]), d[q][k], 0))
# none of the first n bytes of an existing file changed
pred notlost(d, ex, D, q, n) = imp(ex[q], min(n, len(d[q])) <= len(D[q]) && forall(k, 0, min(n, len(d[q])), D[q][k] == d[q][k]))

func utils.CreateZeroFilledFile(path, size) (f, e)
  requires 0 <= size
  modifies disk, fexist, fpath, fpos
  ensures imp(e == nil, f != nil && fresh(f) && fpath[obj(f)] == path && fexist[path] && zeroext("", disk[path], size))
  ensures imp(e != nil, f == nil)
  ensures samefiles(old(disk), disk, path) && sameex(old(fexist), fexist, path)
  ensures forall(o, "Int", imp(o != 0 && o != obj(f) && allocated(o), fpath[o] == old(fpath)[o]), fpath[o])
  props C16

func utils.OCAT(path, length) (f, e)
  requires 0 <= length
  modifies disk, fexist, fpath, fpos
  ensures imp(e == nil, f != nil && fresh(f) && fpath[obj(f)] == path && fexist[path] && kept(old(disk), old(fexist), disk, path, length))
  ensures notlost(old(disk), old(fexist), disk, path, length)
  ensures samefiles(old(disk), disk, path) && sameex(old(fexist), fexist, path)
  ensures forall(o, "Int", imp(o != 0 && allocated(o), fpath[o] == old(fpath)[o]), fpath[o])
  props C16

package fileio
func torrent/fileio.newLockedFp(fp) (r)
  ensures r != nil && fresh(r) && r.fp == fp
  opt aux
  props C16
func torrent/fileio.NewFileIO(ti) (r)
  ensures wflfps(r) && r.torInfo == ti && fresh(r) && r.lfps != nil
  props C16
func (*torrent/fileio.FileIO).OCAT(fio, path, length) (e)
  requires wflfps(fio) && fio.lfps != nil && 0 <= length
  modifies disk, fexist, fpath, fpos, mapof(fio.lfps)
  ensures wflfps(fio)
  ensures imp(e == nil, has(fio.lfps, path) && fexist[path] && kept(old(disk), old(fexist), disk, path, length))
  ensures forall(q, "Str", imp(old(has(fio.lfps, q)), has(fio.lfps, q)), domain(fio.lfps)[q])
  ensures notlost(old(disk), old(fexist), disk, path, length)
  ensures samefiles(old(disk), disk, path) && sameex(old(fexist), fexist, path)
  props C16
# the file is open and has the right length; nothing it held was lost
pred ready(fio, d, ex, D, EX, q, n) = has(fio.lfps, q) && EX[q] && kept(d, ex, D, q, n)
func (*torrent/fileio.FileIO).OCATAll(fio, files) (e)
  requires wflfps(fio) && fio.lfps != nil && distinctl(col(files, "EntryBase.localPath"), off(files), len(files)) && forall(i, 0, len(files), 0 <= files[i].EntryBase.length)
  modifies disk, fexist, fpath, fpos, mapof(fio.lfps)
  let lp = col(files, "EntryBase.localPath")
  let le = elen(files)
  let o = off(files)
  loop wflfps(fio)
  loop [i int@rangeindex] forall(k, o, o + i, ready(fio, old(disk), old(fexist), disk, fexist, lp[k], le[k]), lp[k])
  loop [i int@rangeindex] forall(k, o + i, o + len(files), disk[lp[k]] == old(disk)[lp[k]] && fexist[lp[k]] == old(fexist)[lp[k]], lp[k])
  loop forall(q, "Str", imp(forall(k, o, o + len(files), lp[k] != q), disk[q] == old(disk)[q]), disk[q])
  ensures wflfps(fio)
  ensures imp(e == nil, forall(k, o, o + len(files), ready(fio, old(disk), old(fexist), disk, fexist, lp[k], le[k]), lp[k]))
  ensures forall(k, o, o + len(files), notlost(old(disk), old(fexist), disk, lp[k], le[k]), lp[k])
  ensures forall(q, "Str", imp(forall(k, o, o + len(files), lp[k] != q), disk[q] == old(disk)[q]), disk[q])
  props C16
