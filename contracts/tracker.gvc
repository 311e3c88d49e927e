# Tracker replies and requests (C24, C25)
package tracker

trusted net.IPv4(a, b, c, d) (r)
  ensures len(r) == 16 && fresh(r) && v4in6(str(r)) && r[12] == a && r[13] == b && r[14] == c && r[15] == d
smt (declare-fun s_ipok (Str) Bool)
smt (declare-fun s_ipparse (Str) Str)
trusted net.ParseIP(s) (r)
  ensures iff(r == nil, !s_ipok(s))
  ensures imp(r != nil, len(r) == 16 && fresh(r) && str(r) == s_ipparse(s))

# the address s is the IPv4 address in the four bytes of q from k
pred v4is(s, q, k) = len(s) == 4 && s[0] == q[k] && s[1] == q[k+1] && s[2] == q[k+2] && s[3] == q[k+3] || len(s) == 16 && v4in6(s) && s[12] == q[k] && s[13] == q[k+1] && s[14] == q[k+2] && s[15] == q[k+3]
pred cpeer(e, q, k) = v4is(str(e.ip), q, k) && e.port == be(q, k + 4, 2)
pred compactis(r, q) = 6 * len(r) == len(q) && forall(k, 0, len(r), cpeer(r[k], q, 6 * k))

pred dstr(d, k) = has(d, k) && is(d[k], "string")
pred dint(d, k) = has(d, k) && is(d[k], "int64")
pred duint(d, k) = dint(d, k) && as(d[k], "int64") >= 0
pred pdok(d) = dstr(d, "ip") && s_ipok(as(d["ip"], "string")) && duint(d, "port") && as(d["port"], "int64") <= 65535 && dstr(d, "peer id")
pred pentok(v) = is(v, "bencode.Dict") && pdok(as(v, "bencode.Dict"))
pred pentis(e, d) = e.id == as(d["peer id"], "string") && e.port == as(d["port"], "int64") && str(e.ip) == s_ipparse(as(d["ip"], "string"))
pred listed(r, l) = len(r) == len(l) && forall(k, 0, len(l), pentis(r[k], as(l[k], "bencode.Dict")))

func (tracker.stringSource).GetPeers(s) (r, err)
  loop [i int, any es peer.List] len(es) == i
  loop [i int, any es peer.List] forall(k, 0, i, alive(es[k].ip) && cpeer(es[k], s, 6 * k))
  ensures (err == nil) == (len(s) % 6 == 0)
  ensures imp(err == nil, compactis(r, s))
  props C24
func (tracker.listSource).GetPeers(l) (r, err)
  loop [i int, any es peer.List] len(es) == i
  loop [i int, any es peer.List] forall(k, 0, i, alive(es[k].ip) && pentok(l[k]) && pentis(es[k], as(l[k], "bencode.Dict")))
  ensures (err == nil) == forall(k, 0, len(l), pentok(l[k]))
  ensures imp(err == nil, listed(r, l))
  props C24

pred plist(d) = has(d, "peers") && is(d["peers"], "bencode.List")
pred peersok(d) = ite(dstr(d, "peers"), len(as(d["peers"], "string")) % 6 == 0, plist(d) && forall(k, 0, len(as(d["peers"], "bencode.List")), pentok(as(d["peers"], "bencode.List")[k])))
func tracker.newResponse(dict) (r, err)
  ensures (err == nil) == (!dstr(dict, "failure reason") && duint(dict, "interval") && duint(dict, "complete") && duint(dict, "incomplete") && peersok(dict))
  ensures imp(err == nil, r != nil && r.State != nil && r.State.interval == as(dict["interval"], "int64") && r.State.seeders == as(dict["complete"], "int64") && r.State.leechers == as(dict["incomplete"], "int64"))
  ensures imp(err == nil, ite(dstr(dict, "peers"), compactis(r.Peers, as(dict["peers"], "string")), listed(r.Peers, as(dict["peers"], "bencode.List"))))
  ensures imp(err == nil, r.State.warning == ite(dstr(dict, "warning message"), as(dict["warning message"], "string"), "") && r.State.minInterval == ite(duint(dict, "min interval"), as(dict["min interval"], "int64"), 0))
  props C24

func (tracker.State).Interval(s) (r)
  ensures r == s.interval
  props C24
func (tracker.State).MinInterval(s) (r)
  ensures r == s.minInterval
  props C24
func (tracker.State).Warning(s) (r)
  ensures r == s.warning
  props C24
func (tracker.State).Seeders(s) (r)
  ensures r == s.seeders
  props C24
func (tracker.State).Leechers(s) (r)
  ensures r == s.leechers
  props C24

# Announce requests (C25)
smt (declare-fun u_ok (Str) Bool)
smt (declare-fun u_scheme (Str) Str)
smt (declare-fun u_host (Str) Str)
smt (declare-fun u_path (Str) Str)
smt (declare-fun q_one (Str Str) Bool)
smt (declare-fun q_val (Str Str) Str)
# the query string has exactly one parameter of this name, with this value
pred qis(q, name, v) = q_one(q, name) && q_val(q, name) == v

trusted net/http.NewRequest(method, url, body) (r, err)
  ensures imp(method == "GET" && body == nil, (err == nil) == u_ok(url))
  ensures imp(err == nil, r != nil && fresh(r) && r.URL != nil && fresh(r.URL) && r.Method == method && r.URL.Scheme == u_scheme(url) && r.URL.Host == u_host(url) && r.URL.Path == u_path(url))
trusted (*net/url.URL).Query(u) (r)
  requires u != nil
  ensures r != nil && fresh(r)
trusted (net/url.Values).Set(v, k, s) ()
  requires v != nil
  modifies mapof(v)
  ensures has(v, k) && len(v[k]) == 1 && alive(v[k]) && v[k][0] == s
  ensures forall(q, "Str", imp(q != k && old(has(v, q)), has(v, q) && obj(v[q]) == old(obj(v[q])) && off(v[q]) == old(off(v[q])) && len(v[q]) == old(len(v[q]))))
trusted (net/url.Values).Add(v, k, s) ()
  requires v != nil
  modifies mapof(v)
  ensures has(v, k) && len(v[k]) == old(ite(has(v, k), len(v[k]), 0)) + 1 && alive(v[k]) && v[k][len(v[k]) - 1] == s
  ensures forall(q, "Str", imp(q != k && old(has(v, q)), has(v, q) && obj(v[q]) == old(obj(v[q])) && off(v[q]) == old(off(v[q])) && len(v[q]) == old(len(v[q]))))
trusted (net/url.Values).Encode(v) (r)
  ensures forall(q, "Str", imp(has(v, q) && len(v[q]) == 1, q_one(r, q) && q_val(r, q) == v[q][0]))

pred announces(host, path, query, tor, stats, port, id) = host == u_host(tor.announce) && path == u_path(tor.announce) && qis(query, "info_hash", tor.infohash) && qis(query, "peer_id", id) && qis(query, "port", dec(port)) && qis(query, "uploaded", dec(stats.uploaded)) && qis(query, "downloaded", dec(stats.dnloaded)) && qis(query, "left", dec(stats.left)) && qis(query, "compact", "1")

func tracker.newRequest(tor, stats, port, peerId) (r, err)
  requires tor != nil && stats != nil
  ensures (err == nil) == u_ok(tor.announce)
  ensures imp(err == nil, r != nil && r.URL != nil && r.Method == "GET" && r.URL.Scheme == u_scheme(tor.announce) && announces(r.URL.Host, r.URL.Path, r.URL.RawQuery, tor, stats, port, peerId))
  props C25

# the requests made so far, and where the last one went
ghost reqs "Int"
ghost rq_method "Str"
ghost rq_host "Str"
ghost rq_path "Str"
ghost rq_query "Str"
trusted (*net/http.Client).Do(c, req) (resp, err)
  requires req != nil && req.URL != nil
  modifies reqs, rq_method, rq_host, rq_path, rq_query
  ensures reqs == old(reqs) + 1 && rq_method == req.Method && rq_host == req.URL.Host && rq_path == req.URL.Path && rq_query == req.URL.RawQuery
  ensures imp(err == nil, resp != nil && fresh(resp) && resp.Body != nil)
trusted io/ioutil.ReadAll(r) (b, err)
  ensures imp(b != nil, fresh(b))
trusted io.ReadCloser.Close(c) (err)

func tracker.do(req) (r, err)
  requires req != nil && req.URL != nil
  modifies reqs, rq_method, rq_host, rq_path, rq_query, decin, decout
  ensures reqs == old(reqs) + 1 && rq_method == old(req.Method) && rq_host == old(req.URL.Host) && rq_path == old(req.URL.Path) && rq_query == old(req.URL.RawQuery)
  ensures imp(err == nil, r != nil && r.State != nil)
  props C25
func tracker.Get(tor, stats, port, peerId) (r, err)
  requires tor != nil && stats != nil
  modifies reqs, rq_method, rq_host, rq_path, rq_query, decin, decout
  ensures reqs == old(reqs) || reqs == old(reqs) + 1
  ensures imp(!u_ok(tor.announce), err != nil && reqs == old(reqs))
  ensures imp(reqs != old(reqs), rq_method == "GET" && announces(rq_host, rq_path, rq_query, tor, stats, port, peerId))
  ensures imp(err == nil, reqs != old(reqs) && r != nil && r.State != nil)
  props C25
