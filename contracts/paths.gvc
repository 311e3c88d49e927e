# Files of a torrent: names and paths (C11, C12)
package filesd

trusted strings.IndexByte(s, c) (r)
  ensures 0 - 1 <= r && r < len(s) && iff(r == 0 - 1, forall(k, 0, len(s), s[k] != c))
smt (declare-fun s_join (Str Str) Str)
trusted path/filepath.Join(elems) (r)
  ensures imp(len(elems) == 2, r == s_join(elems[0], elems[1]))

# one component of a path
pred validpart(s) = s != "" && s != "." && s != ".." && forall(k, 0, len(s), s[k] != 47)
# the components of a path list, each followed by a slash
spec tj(l "BL", n int) Str rec = ite(n <= 0, "", cat(tj(l, n-1), cat(as(l[n-1], "string"), "/")))
pred partok(v) = is(v, "string") && validpart(as(v, "string"))
pred pathok(l) = len(l) > 0 && forall(k, 0, len(l), partok(l[k]))
pred fdictok(d) = has(d, "length") && is(d["length"], "int64") && has(d, "path") && is(d["path"], "bencode.List") && pathok(as(d["path"], "bencode.List"))
pred fentok(v) = is(v, "bencode.Dict") && fdictok(as(v, "bencode.Dict"))
# the path: the components joined by slashes
spec pj(l "BL") Str = sub(tj(l, len(l)), 0, len(tj(l, len(l))) - 1)
lemma tjeq(l "BL", m "BL", n int)
  requires 0 <= n && forall(k, 0, n, l[k] == m[k])
  ensures tj(l, n) == tj(m, n)
  trigger tj(l, n), tj(m, n)
  induct n
  use tjeq(l, m, n-1)
  props C12
pred fentis(e, d) = e.length == as(d["length"], "int64") && e.torPath == pj(as(d["path"], "bencode.List"))

func torrent/filesd.ValidPathPart(part) (r)
  ensures r == validpart(part)
  props C12

func torrent/filesd.FromBenList(benlist) (r, err)
  loop [i int@rangeindex, any es []torrent/filesd.EntryBase] len(es) == i
  loop [i int@rangeindex] forall(k, 0, i, fentok(benlist[k]))
  loop [any es []torrent/filesd.EntryBase] forall(k, 0, len(es), fentis(es[k], as(benlist[k], "bencode.Dict")))
  loop [any l bencode.List, i int@rangeindex] forall(k, 0, i, partok(l[k]))
  loop [any l bencode.List, i int@rangeindex, any sb *strings.Builder] content(sb) == tj(bl(l), i)
  loop [any l bencode.List, i int@rangeindex, any sb *strings.Builder] imp(i > 0, len(content(sb)) > 0)
  ensures (err == nil) == forall(k, 0, len(benlist), fentok(benlist[k]))
  ensures imp(err == nil, fresh(r))
  ensures imp(err == nil, len(r) == len(benlist) && forall(k, 0, len(r), fentis(r[k], as(benlist[k], "bencode.Dict"))))
  props C11 C12

package info

pred filesok(l) = forall(k, 0, len(l), fentok(l[k]))
pred single(d) = has(d, "length") && is(d["length"], "int64")
pred metaok(d) = has(d, "name") && is(d["name"], "string") && validpart(as(d["name"], "string")) && has(d, "piece length") && is(d["piece length"], "int64") && has(d, "pieces") && is(d["pieces"], "string") && (single(d) || has(d, "files") && is(d["files"], "bencode.List") && filesok(as(d["files"], "bencode.List")))
# the files of the metadata, and where they are
pred onefile(ti, d, wd) = len(ti.flist) == 1 && ti.flist[0].length == as(d["length"], "int64") && ti.flist[0].torPath == ti.name && ti.flist[0].localPath == s_join(wd, ti.name)
pred manyfiles(ti, l, wd) = len(ti.flist) == len(l) && forall(k, 0, len(l), fentis(ti.flist[k], as(l[k], "bencode.Dict")) && ti.flist[k].localPath == s_join(s_join(wd, ti.name), ti.flist[k].torPath))

func torrent/info.FromDict(info, workingDir) (r, err)
  loop [i int@rangeindex, any es []torrent/filesd.EntryBase] forall(k, 0, i, es[k].localPath == s_join(s_join(workingDir, as(info["name"], "string")), es[k].torPath))
  loop [any es []torrent/filesd.EntryBase, any l bencode.List] len(es) == len(l) && forall(k, 0, len(l), fentis(es[k], as(l[k], "bencode.Dict")))
  ensures imp(err == nil, r != nil && metaok(info))
  ensures imp(err == nil, wfti(r) && r.name == as(info["name"], "string") && r.pieceLen == as(info["piece length"], "int64") && r.hashes == as(info["pieces"], "string"))
  ensures imp(err == nil, ite(single(info), onefile(r, info, workingDir), manyfiles(r, as(info["files"], "bencode.List"), workingDir)))
  ensures imp(err != nil, r == nil)
  props C11 C12
