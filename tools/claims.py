COMMON="Unbounded proof over all inputs and iterations; trusted: the verifier gvc, the SMT solvers, x/tools SSA construction, the listed models of external functions (see the evidence file)."
CLAIMED={
"C22":"handleRequest is proved, for any request, to make at most one write, only when the piece is ours and the requested range lies within it, and then of a piece message with the request's index and begin and exactly those bytes of the piece; a request that can be answered is answered unless reading or writing fails. Preconditions: metadata, files and bitfield belong together (C10, C11), pieces shorter than 4 GiB - 9 bytes. The dispatch in handleMessage is not under contract.",
"C17":"Validate is proved, by an invariant over the pieces, to leave in the bitfield exactly the pieces whose bytes on disk (as ReadPiece is proved to read them) have the listed SHA-1, whatever the bitfield held before, and to return an error when a read fails. Precondition: metadata, files and bitfield belong together (C10, C11, C16).",
"C15":"ReadPiece, WritePiece and the four functions they rest on are proved against a model of the files as a map from paths to contents: what is written, where, that nothing else changes (also when a write fails half way), what is read, and what is refused. Assumed: what os.File.ReadAt/WriteAt do; that files have different paths and were prepared (C16); the piece map (C10).",
"C16":"AppendZeros, CreateZeroFilledFile, OCAT and OCATAll are proved against the same file model: final length, kept bytes, added zeros, no other file touched, nothing lost on failure. Assumed: the os package's file operations as specified in contracts/store.gvc.",
"C02":"Encode and its five helpers are proved, for every boxed value, to produce exactly the canonical encoding (a recursive specification over the value; dictionary keys in ascending byte order by an abstract rank) or an error, error exactly when the value holds something not encodable; map iteration order is arbitrary in the proof.",
"C13":"FromTorrentFile is proved to return an error or the torrent of the decoded file: announce, metadata (as FromDict is proved to read it) and the SHA-1 of the canonical encoding of the info dictionary. os.ReadFile and SHA-1 are assumed.",
"C03":"Decode and its four parsers are proved to return (with run-time panics recovered), to terminate, to nest at most 10000 deep, never to write to the input, and to accept integers and strings only in the stated form with the stated value; strconv is specified, not verified.",
"C04":"Every typed lookup is proved to succeed exactly when the key is present with that type and to return the stored value (dictionaries and lists: the same contents).",
"C05":"Constructors, encoders, accessors and decoders of all nine kinds are under contract; the round-trip is six lemmas over those contracts, for all field values and any bytes following.",
"C06":"Decode is proved to accept exactly the well-formed complete messages, to consume their size, to consume at least one byte, to write nothing of the caller's and to be free of run-time panics.",
"C07":"DecodeAll is proved against a recursive definition over positions, with termination, and decoded bitfields are proved to be in memory of their own.",
"C08":"Every Bitfield method is proved against the set-of-indices contract (data bytes, bit order, count, completeness).",
"C09":"MakeFileList is proved to lay the files out end to end (recursive prefix sums of the lengths), for any number and sizes of files incl. empty ones; GetFiles to return exactly the run of files spanning the piece. Preconditions: positive piece length, non-negative lengths, total below 2^63 minus one piece.",
"C10":"MakePieceMap, PieceInfo and PieceLookup are proved: for any layout the locations of a piece (a recursive chain of locations) cover exactly its byte range of the stream, each inside its file. Preconditions: positive piece length, non-negative lengths, no more bytes than pieces hold, no 64-bit overflow of the total.",
"C11":"FromDict and NewTorInfo (with FromBenList, MakeFileList, MakePieceMap and the typed lookups) are proved free of run-time panics for every dictionary, and accepted metadata is proved to have a positive piece length below 2^32, one hash per piece, non-negative lengths and pieces that add up.",
"C12":"FromDict and FromBenList are proved to accept only names and components that are single path parts, and to give every file exactly the joined path of the working directory, the name and its components; filepath.Join is specified as a function of its two arguments (that it stays below its first argument for such parts is the documented behaviour of path/filepath).",
"C18":"MakeHandshake, ValidHandshake and the accessors are proved against the 68-byte layout; what is built is what is accepted, for any reserved bytes and id.",
"C21":"createReqMessages is proved, with termination, to return a chain of requests of 1..16384 bytes from 0 to the piece's length. Precondition: well-formed metadata (C11).",
"C24":"newResponse and both peer list parsers are proved for every decoded dictionary: exactly which replies are accepted, every count, and every peer in order; net.ParseIP and net.IPv4 are specified, not verified.",
"C25":"Get, newRequest and do are proved: at most one request, to the parts of the announce URL, whose query has exactly the seven required values; an unusable URL gives an error. Specified, not verified: net/http and net/url (parsing, Values, Encode, Do) and ioutil.ReadAll.",
"C26":"Read and Write of the rate-limited wrapper are proved to make exactly one underlying call with the caller's whole slice, and to start it only with a positive allowance; atomic counters are modelled sequentially.",
"C27":"parseSizeUnits is proved against the grammar and value of the documented form (digits as an unbounded recursive sum), Validate stores exactly those values; strconv.Atoi and strings.ToUpper are specified, not verified.",
"C28":"Every Set and LinkedList method and RemoveSwap are proved (generically, for any element type); a list's order is a ghost position per node. Assumed: an element's Key is a function of the element; nodes are allocated one by one; lists are shorter than 2^48.",
"C29":"MakePeer, the accessors and NewPeerId are proved; net.IP.String and net.JoinHostPort are specified, not verified; termination of the random letter loop is not proved.",
"C30":"Every method of Stats and State is proved, including the frame (nothing else changes).",
}
NA={
"C01":"needs a functional contract of the whole parser (that it accepts every encoding, with the value); the parser is under contract for C03 (grammar of strings and integers, termination, no crash) and the encoder for C02 (exact bytes), but the lemma connecting the two is not finished.",
"C14":"SegmentData is under contract and discharged; the hashing loop of CreateTorInfo over files read in chunks is not finished.",
"C19":"contracts for the lists and sets below it are discharged (C28); the invariant over all 64 bucket lists and every peer set together is not finished. Known defect: the 65th announcer of a piece indexes beyond the buckets and panics.",
"C20":"rests on the invariant of C19, which is not finished. Known defect: NextPiece marks a copy of the piece as active, so that the piece is handed out again.",
"C23":"handleBitfield ends in PeerPieceTracker.RegisterBF, whose contract rests on the invariant of C19, which is not finished.",
"C31":"the receive loop handles every read in isolation (no reassembly exists to put a contract on), and the property relates concurrent goroutines and channels; gvc's contracts are sequential and cannot express it. The defect is described in DESIGN.md.",
"C32":"a liveness property of several goroutines, channels and select statements; sequential pre/postconditions cannot express deadlock freedom or that a goroutine ends.",
"C33":"a real-time property over a ticker goroutine and concurrent transfers; contracts have no notion of time or of interleaved atomic counters. The per-call part is C26.",
}
