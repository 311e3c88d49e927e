#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (edit the table here, then run)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text),
             why_tests_cant=why,
             anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                          mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Bencode: decoding an encoding gives the value back",
  "For every value built from 64-bit integers, non-empty strings, lists and string-keyed dictionaries with non-empty keys, nested to any depth the decoder accepts, encoding succeeds and decoding the resulting bytes succeeds and returns an equal value. This includes the extreme integers and strings of arbitrary bytes.",
  ["inputs"], "all encodable values (any shape, any integer, any string bytes)",
  "The tests encode and decode a few fixed literals and three torrent files; the claim is over all values, including extreme integers and arbitrary nesting.",
  ["src/bencode/encode.go", "src/bencode/decode.go"],
  [("Encode", "src/bencode/encode.go"), ("Decode", "src/bencode/decode.go")], observe=["bencode.Encode", "bencode.Decode"])

p("C02", "Bencode: the encoder's output is the canonical form, or an error",
  "Encoding an integer gives 'i', its shortest decimal form and 'e'; a string gives its byte length in decimal, ':' and its bytes; a list or dictionary gives its items in order between 'l' or 'd' and 'e', dictionary keys in strictly ascending byte order each followed by its value. The output depends only on the value (never on map iteration order), and a value containing an unsupported type, an empty string or an empty key makes encoding return an error.",
  ["inputs"], "all Go values passed to the encoder",
  "Tests compare a handful of literals; canonical order and error reporting must hold for every nesting and every map iteration order, and the infohash depends on it.",
  ["src/bencode/encode.go"], [("encode/encodeDict/encodeList/encodeString/encodeInt", "src/bencode/encode.go")], observe=["bencode.Encode"])

p("C03", "Bencode: decoding arbitrary bytes never crashes or hangs",
  "For every byte sequence, decoding returns either a value or an error after finitely many steps, never crashes the process (including on truncated, oversized-length or deeply nested input), and never modifies the input. Integers are accepted only in the form without leading zeros and without minus zero, and a successfully decoded string is exactly the announced number of input bytes.",
  ["inputs"], "all byte sequences",
  "Tests use about ten malformed literals; torrent files and tracker replies are attacker-controlled.",
  ["src/bencode/decode.go"], [("Decode with recover", "src/bencode/decode.go"), ("decoder cursor", "src/bencode/decode.go")],
  state=[("cursor", "next unread input byte", "src/bencode/decode.go")], observe=["bencode.Decode"])

p("C04", "Bencode dictionaries: typed lookups return the stored value or an error",
  "A typed lookup (string, integer, unsigned integer, dictionary, list) succeeds exactly when the key is present with a value of that type, and then returns that very value; otherwise it returns a non-nil error. An unsigned lookup of a negative integer is an error and never a huge positive number.",
  ["inputs"], "all dictionaries, keys and stored values",
  "The tests look up one good key, one bad type and one missing key.",
  ["src/bencode/dict.go"], [("Dict.GetString/GetInt/GetUint/GetDict/GetList", "src/bencode/dict.go")], observe=["bencode.Dict.Get*"])

p("C05", "Peer wire: every message encodes to its BEP 3 layout and decodes back",
  "For every message (keep-alive, choke, unchoke, interested, not interested, have, bitfield, request, piece) and all field values, encoding gives a 4-byte big-endian length, the type byte and the big-endian payload fields. Decoding those bytes, with any bytes following, returns a message of the same kind with the same fields and reports exactly the encoded size as consumed.",
  ["inputs"], "all message kinds and all field values (32-bit indices, any block, any bitfield)",
  "Tests check four 'have' indices, one piece encoding and no request encoding at all.",
  ["src/p2p/message.go", "src/p2p/have.go", "src/p2p/request.go", "src/p2p/piece.go", "src/p2p/bitfield.go", "src/p2p/no_payload.go", "src/p2p/keepalive.go"],
  [("Encode methods", "src/p2p"), ("Decode", "src/p2p/message.go")], observe=["p2p.Message.Encode", "p2p.Decode"])

p("C06", "Peer wire: decoding arbitrary bytes never crashes and always advances",
  "For every byte sequence received from a peer, decoding one message either fails with an error or returns a complete message that lies within the received bytes and consumes exactly its length prefix plus four bytes; on non-empty input it always consumes at least one byte, so decoding a whole buffer terminates. It never panics and never changes the buffer, and a message whose length prefix disagrees with its type is rejected.",
  ["inputs"], "all byte sequences up to the address space, including every length prefix value",
  "Tests use about six malformed buffers; the length prefix alone has 2^32 values and the data is attacker-controlled.",
  ["src/p2p/message.go", "src/p2p/have.go", "src/p2p/request.go", "src/p2p/piece.go", "src/p2p/bitfield.go"],
  [("Decode length checks", "src/p2p/message.go"), ("DecodeAll loop", "src/p2p/message.go")], observe=["p2p.Decode", "p2p.DecodeAll"])

p("C07", "Peer wire: a buffer of whole messages decodes to exactly those messages",
  "Decoding a whole buffer returns, in order, the result of decoding one message at each successive position, stopping at the end of the buffer, and the number of bytes reported read is the sum of the sizes of the returned messages and never exceeds the buffer length. A decoded bitfield stays unchanged when the receive buffer is overwritten later.",
  ["inputs", "histories"], "all buffers, i.e. all sequences of messages and garbage in any combination",
  "Three fixed sequences are tested.",
  ["src/p2p/message.go", "src/p2p/bitfield.go"], [("DecodeAll", "src/p2p/message.go"), ("copy in DecodeMsgBitfield", "src/p2p/bitfield.go")], observe=["p2p.DecodeAll"])

p("C08", "Bitfield: get, set, count and completeness agree with a set of indices",
  "A bitfield of n bits behaves as a set of piece indices below n: it starts empty, setting or clearing an index changes that index only, reading returns the last value set, and bit i is stored most-significant-bit first as BEP 3 requires. The reported number of set bits is always the size of that set and 'complete' is true exactly when every index is in it, for every history of operations and for bitfields built from received bytes of the matching size, and any other size is refused.",
  ["inputs", "histories"], "all sizes, all indices, all operation histories, all received byte strings",
  "Tests use one- and two-byte bitfields and a dozen operations.",
  ["src/bf/bitfield.go"], [("Get/Set/calcNset/FromBytes/SetNbits/Fill", "src/bf/bitfield.go")],
  state=[("nset", "number of set bits among the first nbits", "src/bf/bitfield.go")], observe=["bf.Bitfield methods"])

p("C09", "File layout: files tile the torrent's byte stream in order without gaps",
  "For every list of file lengths (zero allowed) and every positive piece length, the computed layout gives each file the contiguous byte range that starts where the previous file ended, expressed as start piece and offset and (inclusive) end piece and offset. Asking which files a piece touches returns exactly the files whose range includes that piece, in order.",
  ["inputs"], "all file lists and piece lengths",
  "Three layouts and three lookups are tested.",
  ["src/torrent/filesd/flist.go", "src/torrent/filesd/entry.go"], [("MakeFileList", "src/torrent/filesd/flist.go"), ("GetFiles", "src/torrent/filesd/flist.go")],
  observe=["filesd.MakeFileList", "filesd.FileList.GetFiles"])

p("C10", "Piece map: each piece maps to exactly its bytes in the files",
  "For every file layout and piece index, the locations recorded for the piece, taken in order, cover exactly the piece's byte range of the concatenated files: each location lies inside its file, consecutive locations continue each other, and together they have the piece's length. Byte offsets and lengths returned for a file and piece index are those of the intersection of the two, and a file whose pieces do not include this one gives an error.",
  ["inputs"], "all file lists, piece lengths and piece indices",
  "Six hand-drawn layouts are tested.",
  ["src/torrent/info/piecemap.go", "src/torrent/filesd/entry.go"], [("MakePieceMap", "src/torrent/info/piecemap.go"), ("Entry.PieceInfo", "src/torrent/filesd/entry.go")],
  observe=["info.MakePieceMap", "filesd.Entry.PieceInfo", "info.TorInfo.PieceLookup"])

p("C11", "Torrent metadata: malformed metadata is rejected, never a crash",
  "For every decoded info dictionary, building the torrent metadata returns either an error or metadata with a positive piece length, non-negative file lengths, one 20-byte hash per piece and a last-piece length that makes the pieces add up to the total length. It never panics, whatever the types, signs and sizes of the dictionary's entries.",
  ["inputs"], "all info dictionaries",
  "Only three well-formed torrent files are tested.",
  ["src/torrent/info/info.go", "src/torrent/filesd/entrybase.go", "src/torrent/filesd/flist.go", "src/torrent/info/piecemap.go"],
  [("FromDict/NewTorInfo", "src/torrent/info/info.go"), ("FromBenList", "src/torrent/filesd/entrybase.go")], observe=["info.FromDict", "info.NewTorInfo"])

p("C12", "Torrent metadata: file paths never leave the working directory",
  "For every info dictionary that is accepted, the local path of every file is the working directory (plus the torrent name for multi-file torrents) followed only by the path components listed in the dictionary, none of which is empty, '.', '..' or contains a separator. A dictionary whose name or path components break this is rejected with an error.",
  ["inputs"], "all info dictionaries, i.e. all names and path component lists",
  "No test contains a hostile path; files at these paths are created, truncated and overwritten at start-up.",
  ["src/torrent/info/info.go", "src/torrent/filesd/entrybase.go"], [("FromDict", "src/torrent/info/info.go"), ("FromBenList", "src/torrent/filesd/entrybase.go")],
  observe=["filesd.EntryBase.LocalPath"])

p("C13", "Torrent file: the infohash is the SHA-1 of the encoded info dictionary",
  "Loading a torrent file either returns an error or a torrent whose announce URL is the file's, whose metadata comes from its info dictionary, and whose infohash is the SHA-1 of the complete canonical encoding of that dictionary. If the info dictionary cannot be encoded, loading fails rather than returning a hash of partial data.",
  ["inputs"], "all torrent file contents",
  "Three well-formed files are tested; the failure path (partial encoding) is never exercised.",
  ["src/torrent/torrent.go"], [("FromTorrentFile/NewTorrent", "src/torrent/torrent.go")], observe=["torrent.FromTorrentFile", "torrent.Torrent.Infohash"])

p("C14", "Torrent creation: piece hashes are those of consecutive pieces of the files",
  "Splitting data into segments yields consecutive segments of the requested size (only the last may be shorter, none empty) whose concatenation is the data. Creating a torrent from files hashes exactly the segments of the files' concatenation for every piece length, every file size and every way reads are split, and terminates.",
  ["inputs", "fault_sequences"], "all data, segment sizes, file sizes and read chunkings",
  "Three media sets with piece lengths up to 1 MiB are tested; larger pieces, short reads and buffer-boundary cases are not.",
  ["src/utils/utils.go", "src/torrent/info/info.go"], [("SegmentData/HashSlices", "src/utils/utils.go"), ("CreateTorInfo", "src/torrent/info/info.go")],
  observe=["utils.SegmentData", "utils.HashSlices", "info.CreateTorInfo"])

p("C15", "Piece I/O: only verified data is written, at exactly the piece's place",
  "Writing a piece changes nothing on disk unless the SHA-1 of the data equals the piece's hash; when it succeeds, exactly the file bytes belonging to that piece hold the data and no other byte of any file changed. Reading a piece returns exactly those bytes in order, and out-of-range piece indices give an error.",
  ["inputs", "fault_sequences"], "all layouts, piece indices, data and I/O errors",
  "Two tiny layouts are written and read back; nothing checks that other bytes stay, that bad data leaves files alone, or I/O errors.",
  ["src/torrent/fileio/fileio.go", "src/torrent/info/info.go"], [("WritePiece/ReadPiece", "src/torrent/fileio/fileio.go")], observe=["fileio.FileIO.ReadPiece", "fileio.FileIO.WritePiece"])

p("C16", "File preparation: files get the right size and keep their existing data",
  "Opening a file for a torrent either fails or leaves a file of exactly the requested length in which every byte that existed before within that length is unchanged and every added byte is zero. A failure to open an existing file never erases its contents.",
  ["inputs", "fault_sequences"], "all existing sizes, requested sizes and I/O errors",
  "Tests create files from nothing in three sizes; growing, truncating, preserving and failing opens are untested.",
  ["src/utils/futils.go"], [("OCAT/CreateZeroFilledFile/AppendZeros", "src/utils/futils.go")], observe=["utils.OCAT", "fileio.FileIO.OCATAll"])

p("C17", "Start-up validation: a piece counts as ours exactly when its hash matches",
  "After validating the files at start-up, the client's bitfield has bit i set exactly when the bytes on disk for piece i have the SHA-1 listed in the metadata, for every piece; a read failure aborts with an error instead of claiming pieces.",
  ["inputs", "fault_sequences"], "all torrents, all disk contents, read failures at any piece",
  "No test covers it.",
  ["src/swarm/swarm.go"], [("Swarm.Validate", "src/swarm/swarm.go")], observe=["swarm.Swarm.Validate", "swarm.Swarm.Bf"])

p("C18", "Handshake: exactly the 68-byte handshakes for our torrent are accepted",
  "A handshake built for a 20-byte infohash and 20-byte peer id is 68 bytes: 19, the protocol name, eight reserved bytes (zero), the infohash and the id. A received handshake is accepted exactly when it is 68 bytes long with that prefix and our infohash, whatever its reserved bytes and id, and checking never panics on any bytes.",
  ["inputs"], "all received byte sequences, infohashes and peer ids",
  "No test covers it.",
  ["src/swarm/handshake.go"], [("MakeHandshake/ValidHandshake", "src/swarm/handshake.go")], observe=["swarm.MakeHandshake", "swarm.ValidHandshake"])

p("C19", "Piece availability: the tracker knows exactly which peers have which pieces",
  "After any sequence of peers announcing pieces (single pieces or whole bitfields) and leaving, each piece's recorded peer set is exactly the peers that announced it and have not left since, and each piece is filed under its current peer count (capped at the largest bucket). No number of peers or order of events makes it panic.",
  ["histories", "inputs"], "all sequences of announce and leave events, any number of peers and pieces",
  "Tests register at most four peers; the bucket limit is 64 and repeated leave/join orders are untested.",
  ["src/swarm/piecetracker.go", "src/utils/ds/linklist.go", "src/utils/ds/set.go"], [("Register/RegisterBF/Unregister/register", "src/swarm/piecetracker.go")],
  state=[("buckets", "pieces grouped by peer count", "src/swarm/piecetracker.go")], observe=["swarm.PeerPieceTracker"])

p("C20", "Piece selection: rarest needed piece, never given to two peers at once",
  "When a peer asks for its next piece, the answer is a piece that we lack, that the peer has and that no peer is already fetching, with no rarer such piece available (counts above the bucket cap are equal); 'none' is answered only if no such piece exists. A piece handed out stays reserved until the peer it was handed to leaves.",
  ["histories", "inputs"], "all histories of announce, leave and next-piece calls",
  "Tests ask each peer once for one piece, so handing the same piece out twice goes unnoticed.",
  ["src/swarm/piecetracker.go"], [("NextPiece/Unregister", "src/swarm/piecetracker.go")],
  state=[("active", "piece is reserved", "src/swarm/piecetracker.go")], observe=["swarm.PeerPieceTracker.NextPiece"])

p("C21", "Piece requests: the block requests for a piece cover it exactly once",
  "The block requests generated for a piece name that piece, begin at 0, each continue where the previous ended, are each between 1 and 16384 bytes long and together cover exactly the piece's length (the shorter length for the last piece). Generating them terminates for every piece length.",
  ["inputs"], "all piece lengths, total lengths and piece indices",
  "No test covers it.",
  ["src/swarm/peerhandler.go"], [("createReqMessages", "src/swarm/peerhandler.go")], observe=["requests sent to the peer"])

p("C22", "Serving: a request is answered with the exact bytes asked for, or refused",
  "For every request message from a peer (any index, offset and length) the client either sends one piece message carrying exactly the requested bytes of a piece it has, or sends nothing. It never panics, and never sends bytes outside the requested piece.",
  ["inputs"], "all request fields (three arbitrary 32-bit numbers) and all bitfield states",
  "No test covers it; the fields are attacker-controlled.",
  ["src/swarm/msghandler.go"], [("handleRequest", "src/swarm/msghandler.go")], observe=["bytes written to the peer connection"])

p("C23", "Peer bitfields: accepted only at the right size and registered exactly",
  "A bitfield message from a peer is accepted exactly when its byte length is that of our own bitfield; then precisely the pieces whose bits are set below the number of pieces are recorded as available from that peer. Anything else is refused with an error and records nothing.",
  ["inputs"], "all bitfield messages and piece counts",
  "No test covers it.",
  ["src/swarm/msghandler.go", "src/swarm/piecetracker.go", "src/bf/bitfield.go"], [("handleBitfield", "src/swarm/msghandler.go")], observe=["swarm.PeerPieceTracker"])

p("C24", "Tracker reply: peers and statistics are exactly those the tracker sent",
  "For every decoded tracker reply, parsing returns an error if it carries a failure reason or lacks or mistypes a required field, and otherwise the interval, seeder and leecher counts of the reply and, in order, exactly the peers of its compact (6 bytes each: IPv4, big-endian port) or dictionary-style list. Ports or addresses that are not valid are never turned into a different peer, and parsing never panics.",
  ["inputs"], "all tracker reply dictionaries",
  "One compact reply with four peers is tested; dictionary-style lists, failures and malformed values are not.",
  ["src/tracker/tracker.go"], [("newResponse and the two peer list sources", "src/tracker/tracker.go")], observe=["tracker.Get"])

p("C25", "Tracker announce: the request carries our infohash, id, port and totals",
  "Every announce request goes to the torrent's announce URL with the query parameters info_hash, peer_id, port, uploaded, downloaded, left and compact=1 holding the infohash, our id, our port and the current totals. An unusable announce URL gives an error, never a crash.",
  ["inputs"], "all announce URLs, infohashes, ids, ports and totals",
  "No test covers it.",
  ["src/tracker/tracker.go"], [("newRequest", "src/tracker/tracker.go")], observe=["HTTP request"])

p("C26", "Rate-limited I/O: data passes through unchanged, exactly once",
  "Each rate-limited write hands the caller's bytes to the underlying writer exactly once, unmodified and whole, and each rate-limited read performs exactly one read into the caller's buffer, whatever the configured limits; the underlying error is returned. With a limit set, a transfer is only started when the amount counted in the current interval is below the limit, and its size is added to the interval's count.",
  ["inputs", "schedules"], "all data, limits and counter values at the time of the call",
  "No test covers it.",
  ["src/io/ratelimit.go"], [("RateLimitIO.Write/Read/SetReadRate/SetWriteRate", "src/io/ratelimit.go")], observe=["io.Writer/io.Reader calls"])

p("C27", "Size options: 'X[B|K|M|G]' means exactly that number of bytes, or an error",
  "A rate option made of an optional minus sign, decimal digits and at most one unit letter B, K, M or G in either case yields exactly the number times 1, 1024, 1024^2 or 1024^3. Every other string, including one whose value does not fit in 64 bits, is an error, and parsing never panics.",
  ["inputs"], "all strings",
  "No test covers it.",
  ["src/utils/opts.go"], [("parseSizeUnits", "src/utils/opts.go")], observe=["utils.Opts.UpLimit", "utils.Opts.DnLimit"])

p("C28", "Containers: linked list, set and slice helpers keep their contents exact",
  "Adding to the front of a linked list and removing a node leave a well-formed doubly linked list containing exactly the remaining nodes in order. A set contains exactly the keys added and not removed, its size is their number and listing it returns each element once; swap-removal from a slice drops exactly the chosen element.",
  ["histories", "inputs"], "all operation histories and contents",
  "Tests build lists of at most 20 nodes, remove from lists of at most 3, and never list a set.",
  ["src/utils/ds/linklist.go", "src/utils/ds/set.go", "src/utils/utils.go"], [("LinkedList, Set, RemoveSwap", "src/utils/ds")], observe=["ds.LinkedList", "ds.Set", "utils.RemoveSwap"])

p("C29", "Peer identity: ids are well formed and peer addresses can be dialled",
  "Every generated peer id is 20 bytes: the client prefix -GT0000- followed by 12 ASCII letters. Every peer record reports the id, IP and port it was made from, and its address is in host:port form valid for dialling, for IPv4 and IPv6 addresses alike.",
  ["inputs"], "all random number sequences; all ids, IPs and ports",
  "No test covers ids or IPv6 peers.",
  ["src/utils/utils.go", "src/peer/info.go"], [("NewPeerId", "src/utils/utils.go"), ("MakePeer", "src/peer/info.go")], observe=["utils.NewPeerId", "peer.Info"])

p("C30", "Transfer statistics and peer state report what was recorded",
  "Uploaded and downloaded totals grow by exactly the amounts recorded, the remaining amount decreases by exactly the amount recorded and stops at zero, and none of them affects the others. A new peer starts choked and not interested in both directions, and each of the four flags reports the last value set and changes independently.",
  ["histories", "inputs"], "all histories of updates",
  "No test covers it.",
  ["src/tracker/stats.go", "src/peer/state.go"], [("Stats", "src/tracker/stats.go"), ("State", "src/peer/state.go")], observe=["tracker.Stats", "peer.State"])

p("C31", "Peer stream: messages are decoded however TCP splits the byte stream",
  "The sequence of messages handled for a peer depends only on the bytes the peer sent, not on how they were split across reads: a message that arrives in several reads is handled once, complete.",
  ["schedules", "histories"], "all segmentations of all byte streams",
  "No test reads from a connection; the receive loop handles each read in isolation.",
  ["src/swarm/peerhandler.go", "src/swarm/msghandler.go", "src/io/readloop.go"], [("recvLoop", "src/swarm/peerhandler.go")], observe=["swarm.PeerHandler"])

p("C32", "Peer shutdown: an error ends all of a peer's goroutines without deadlock",
  "When any activity of a peer connection fails, all goroutines of that peer end, the error is reported once, and no other peer is blocked.",
  ["schedules"], "all interleavings of the per-peer goroutines",
  "No test starts them.",
  ["src/swarm/peerhandler.go", "src/io/readloop.go"], [("PeerHandler.Loop", "src/swarm/peerhandler.go"), ("ReadLoop.Finish", "src/io/readloop.go")], observe=["goroutines"])

p("C33", "Rate limit over time: traffic per second stays near the configured limit",
  "Under any number of concurrent transfers, the bytes started in any one-second interval exceed the configured limit by at most one transfer, and transfers make progress whenever the limit is positive.",
  ["schedules"], "all schedules of concurrent readers and writers and the ticker",
  "No test covers it.",
  ["src/io/ratelimit.go"], [("RateLimitIO.Run and the counters", "src/io/ratelimit.go")], observe=["transfer start times"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
