# Torrent files (C13)
package torrent

# the latest call of os.ReadFile
ghost fread "Str"
ghost fdata "Str"
trusted os.ReadFile(name) (r, e)
  modifies fread, fdata
  ensures fread == name && imp(e == nil, fresh(r) && str(r) == fdata)

# the decoded file and its info dictionary
pred fD(x) = as(decout[x], "bencode.Dict")
pred fI(x) = as(fD(x)["info"], "bencode.Dict")
func torrent.FromTorrentFile(torpath, workingDir) (r, err)
  modifies fread, fdata, decin, decout
  ensures imp(err != nil, r == nil)
  ensures imp(err == nil, r != nil && fread == torpath && decin[0] == fdata && is(decout[0], "bencode.Dict"))
  ensures imp(err == nil, has(fD(0), "announce") && is(fD(0)["announce"], "string") && r.announce == as(fD(0)["announce"], "string"))
  ensures imp(err == nil, has(fD(0), "info") && is(fD(0)["info"], "bencode.Dict") && encok(fD(0)["info"]) && r.infohash == sha1(enc(fD(0)["info"])))
  ensures imp(err == nil, metaok(fI(0)) && r.info != nil && wfti(r.info) && r.info.name == as(fI(0)["name"], "string") && r.info.pieceLen == as(fI(0)["piece length"], "int64") && r.info.hashes == as(fI(0)["pieces"], "string"))
  ensures imp(err == nil, ite(single(fI(0)), onefile(r.info, fI(0), workingDir), manyfiles(r.info, as(fI(0)["files"], "bencode.List"), workingDir)))
  props C13
func torrent.NewTorrent(info, announce) (r, err)
  requires info != nil
  loop [any l bencode.List] fresh(l) && !frozen(l) && alive(l)
  ensures imp(err != nil, r == nil)
  ensures imp(err == nil, r != nil && r.info == info && r.announce == announce)
  props C13
func (*torrent.Torrent).Infohash(tor) (r)
  requires tor != nil
  ensures r == tor.infohash
  props C13
func (*torrent.Torrent).Announce(tor) (r)
  requires tor != nil
  ensures r == tor.announce
  props C13
