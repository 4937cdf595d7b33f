#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to review and diff)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Stored datum encoding round-trips exactly",
  "For every datum key and value (any feature bit patterns including NaNs and infinities, any group label and label bytes of any length, any sizes, dimensions and version) decoding the encoded bytes gives back exactly the same fields and consumes exactly the encoded length. The same holds for an encoded score.",
  ["inputs"],"every key, value and score; every feature-vector and label length",
  "The unit test encodes one 3-float key and one score; label lengths that change the length prefix (128, 16384), special floats and high field bits are never sampled.",
  ["data/gencoder/gencoder.go","data/datum.go"],
  [("MarshalKey/UnmarshalKey","data/gencoder/gencoder.go"),("MarshalValue/UnmarshalValue","data/gencoder/gencoder.go"),("DatumScore.Marshal/Unmarshal","data/gencoder/gencoder.go"),("ToDatum","data/datum.go")],
  observe=["data.GetKeyAsBytes/ToDatumKey","data.GetValueAsBytes/ToDatumValue","gencoder.DatumScore"])
p("C02","A datum's identity is exactly its key",
  "Two datums are the same entry (one replaces the other in the store, and they are merged into one search result) if and only if their keys agree in every field: every feature component, the group label, both sizes and both dimensions. Building a datum from its parts keeps every part in its own field, and an entry's identity never changes after it was stored.",
  ["inputs","histories"],"all pairs of keys, including ones differing in a single bit, in length only, or shifted across the field boundary",
  "Tests compare a handful of random byte strings; a collision needs two keys that agree in all bytes but a dropped or truncated one.",
  ["data/gencoder/gencoder.go","data/datum.go","util/util.go","data/newsync.go","data/aggregator.go"],
  [("MarshalKey as map key","data/gencoder/gencoder.go"),("EncodeToString","util/util.go"),("InsertBDMap/DeleteBDMap","data/newsync.go"),("Aggregator.Insert de-duplication","data/aggregator.go"),("NewDatum","data/datum.go")],
  observe=["Data.Insert + Data.StreamAll","Aggregator.Insert + Result"])
p("C03","The store shows exactly the last write of every key",
  "After any sequence of inserts and deletes of never-expiring data, enumerating the dataset and searching it exhaustively both show exactly one entry for each key whose last operation was an accepted insert, carrying that insert's value (label and version), and nothing else. An operation on one key never adds, removes or alters another.",
  ["histories","inputs"],"all operation sequences up to the bound over arbitrary keys and values",
  "Tests insert three distinct datums once; they never overwrite, delete, or re-insert.",
  ["data/newsync.go","data/insert.go","data/delete.go"],
  [("InsertBDMap","data/newsync.go"),("DeleteBDMap","data/newsync.go"),("LoopDBMap/StreamAll","data/newsync.go"),("Data.Insert","data/insert.go")],
  state=[dict(name="DBMap",meaning="key bytes -> entry with expiry",where="data/data.go")],
  observe=["Data.StreamAll","Data.Search"])
p("C04","Entries live exactly as long as their lifetime",
  "An entry inserted at time T with lifetime L>0 seconds is enumerated and found by exact search at every time before T+L and never at or after T+L, and lifetime 0 means it never expires. Re-inserting an entry replaces its value and its expiry time; only a re-insert, while the old entry is still live, with an identical value and an expiry less than 10 seconds away from the current one may leave the old expiry in place.",
  ["inputs","histories"],"all insertion times, observation times and lifetimes (clock as a symbolic non-decreasing input)",
  "No test inserts with a lifetime; boundary instants cannot be hit with a wall clock.",
  ["data/newsync.go","data/insert.go"],
  [("expiry computation in InsertBDMap","data/newsync.go"),("expiry check in LoopDBMap","data/newsync.go"),("CloseEnough","data/newsync.go")],
  observe=["Data.StreamAll","Data.Search"])
p("C05","Exact search returns the true k best entries, best first",
  "For any contents, query, score function and limit (including 0 and limits above the entry count), exact local search returns exactly min(limit, number of matching entries) distinct live entries, ordered best first in the requested direction, each with the score of the requested function for that entry and query, and no matching entry left out is strictly better than one returned.",
  ["inputs","histories"],"all contents within the bound, any order in which the store yields them, all scores including ties, both directions, all limits",
  "The only search test runs the approximate index on a fixed data file; order of the store's iteration and ties are never controlled.",
  ["data/search.go","data/newsync.go"],
  [("Collector.Insert","data/search.go"),("Data.Search","data/search.go"),("LoopDBMap","data/newsync.go")],
  observe=["Data.Search","Data.StreamSearch"])
p("C06","Search filters are neither leaky nor lossy",
  "A search with filters returns only entries whose label contains every requested label path and whose group label contains every requested group path, and filters never exclude an entry that satisfies all of them. This holds for exact search and for index-assisted search.",
  ["inputs","configurations"],"all combinations of label and group-label contents with label filters and group filters",
  "No test uses filters.",
  ["data/search.go"],
  [("Collector.PassesFilters","data/search.go"),("Data.Search","data/search.go"),("Data.SearchAnnoy","data/search.go")],
  observe=["Data.Search","Data.SearchAnnoy"])
p("C07","Merging partial results is an order-independent top-k",
  "Merging any partial results in any arrival order yields the best `limit` distinct datums over all of them in the requested direction, best first, each datum at most once and with the best score it was offered with, cut to the result limit when one is set. When the search carries context datums, a datum's score is the best of its own score and its scores against the context (against the context only, when the context is prioritized).",
  ["inputs","schedules"],"all multisets of scored datums within the bound, all arrival orders, both directions, all limits",
  "No test exercises the merger directly; direction-dependent and duplicate-dependent behaviour needs several results for one datum with different scores.",
  ["data/aggregator.go"],
  [("Aggregator.Insert/InsertToList","data/aggregator.go"),("IsNewScoredBetter","data/aggregator.go"),("BestScore","data/aggregator.go"),("Result","data/aggregator.go")],
  observe=["NewAggrator/Insert/Result"])
p("C08","Grouped search returns each group once, by its best member",
  "When a group limit is set (and the search carries no context datums), the result has at most one entry per group label, no more than the limit and result limit allow, ordered best first; each entry carries the best-scored datum of its group, and its score is computed from that group's best `group limit` members only: their sum when higher is better, their mean divided by their count when lower is better.",
  ["inputs","schedules"],"all sets of scored datums over up to the bounded number of groups, all arrival orders, group limits and directions",
  "No test groups results.",
  ["data/aggregator.go","data/search.go"],
  [("Aggregator.Insert (grouped)","data/aggregator.go"),("Aggregator.Result (grouped)","data/aggregator.go"),("Aggregator.One","data/aggregator.go"),("MultiAggregatedSearch","data/search.go")],
  observe=["NewAggrator(grouped)","Data.MultiAggregatedSearch"])
p("C09","Distributed search loses nothing and always returns",
  "When the local store and all contacted peers finish before the timeout, the merged answer equals the best `limit` of everything they returned, for every interleaving of the participants and for any number of query vectors in the request; each contacted peer is asked that query with the same options and no longer a time budget; peers that fail or return nothing do not affect the others' results. When a participant hangs, the search still returns once the timeout fires, with an ordered, duplicate-free subset of what was offered; no interleaving crashes or deadlocks.",
  ["schedules","fault_sequences","inputs"],"all interleavings (bounded preemptions) of the local search, peer streams, the completion watcher and the timeout",
  "The multi-source test is commented out; a lost result or a send on a closed channel needs a specific schedule.",
  ["data/search.go","data/aggregator.go","data/data.go"],
  [("AggregatedSearch","data/search.go"),("MultiAggregatedSearch","data/search.go"),("StreamSearch","data/search.go"),("RunOnRandomSources","data/data.go")],
  observe=["Data.MultiAggregatedSearch","Data.AggregatedSearch"])
p("C10","Cached answers are served only to the same query, unmodified",
  "A search answered from the query cache gets exactly the answer computed for an identical search, where identical means the same key and the same request options in every respect except the query id and the time budget; a search that differs in its vector or in any option that affects the answer is never served another's cached answer. What earlier callers did with their results (such as rescoring) never shows in a later cached answer, and searching never alters the caller's request options.",
  ["inputs","histories"],"all pairs of searches differing in any one field of key or options; any later modification of returned results",
  "No test sets a cache duration.",
  ["data/search.go"],
  [("GetSearchKey/EncodeSearchConfig","data/search.go"),("CloneResult","data/search.go"),("AggregatedSearch cache","data/search.go")],
  state=[dict(name="QueryCache",meaning="query key -> cloned results",where="data/data.go")],
  observe=["Data.AggregatedSearch"])
p("C11","A query id is executed at most once per node",
  "Of all search requests carrying the same non-empty query id that reach a node while the id is remembered, exactly one is executed; the others return no results and no error, even when they arrive concurrently. A request without an id is always executed and is given a fresh id before it is forwarded to peers; requests with different ids do not affect each other.",
  ["schedules","histories"],"all interleavings of concurrent requests, all id values",
  "No test issues a search over the service interface, let alone two at once.",
  ["node/nodeservice.go"],
  [("SearchStream","node/nodeservice.go"),("QueryUUIDCache.Add","node/nodeservice.go")],
  observe=["Node.SearchStream"])
p("C12","An acknowledged insert is on as many replicas as configured",
  "With replication-on-insert enforced, an insert from a client reports success if and only if it was stored locally and acknowledged by at least the configured number of replicas counting the local one; each copy sent carries the same datum and lifetime and is marked so that the receiver stores it without replicating it further. While the number is not reached the other known peers (up to the number contacted per insert) are tried too. Without enforcement, or for an already-forwarded insert, no copy is sent and success depends on the local store alone.",
  ["fault_sequences","configurations","inputs"],"all accept/refuse patterns of up to the bounded number of peers, all replication numbers, all peer orders",
  "No test adds a peer to a dataset that is inserted into.",
  ["data/insert.go","data/data.go"],
  [("Data.Insert","data/insert.go"),("RunOnRandomSources","data/data.go")],
  observe=["Data.Insert result","calls received by DataSource.Insert"])
p("C13","Size targets are enforced exactly",
  "A dataset with a size target refuses an insert exactly when its counted size has reached the target, and then stores and forwards nothing; below the target, or with the target disabled, an insert is never refused for size.",
  ["inputs","configurations"],"all sizes, targets and the no-target flag, including boundary and extreme values",
  "Tests never reach the target.",
  ["data/insert.go"],[("Data.Insert guard","data/insert.go")],
  observe=["Data.Insert"])
p("C14","Rebalancing never loses or immortalises data",
  "A maintenance pass (periodic or on shutdown) removes a live entry only if a peer acknowledged receiving that very datum during the pass, and while the dataset is in service only if eviction is warranted by its size target and utilization. Every copy handed over carries the entry's own datum, is marked as already forwarded, and expires at the receiver no later than the original plus transfer time; an entry that never expires is handed over as never expiring, and one that does expire is never handed over as immortal. Closing a dataset hands every live entry with enough time left over to a peer that accepts it, whether a pass has counted the entry or not.",
  ["fault_sequences","schedules","inputs"],"all accept/refuse patterns of peers, all random sampling outcomes, all lifetimes and clock advances, all interleavings of the sender and the scan",
  "No test adds a peer; loss needs a refusal at the wrong moment.",
  ["data/newsync.go","data/sync.go","data/data.go"],
  [("Process sender goroutine","data/newsync.go"),("isEvictionOn","data/sync.go"),("InsertConfigFromExpireAt","data/sync.go"),("DataSourceDiffMap","data/data.go")],
  observe=["calls received by DataSource.Insert","Data.StreamAll after Process"])
p("C15","Published statistics describe the live contents",
  "After a maintenance pass the published count is the number of live entries. Once the contents (vectors of one dimension) stay unchanged over repeated passes, the published average is the mean of the stored vectors, the maximum distance is the largest Euclidean distance of a stored vector from that average, and, when that maximum is above 0, the histogram assigns each entry 1/count to the bucket floor(64*distance/maximum distance), capped at the last bucket.",
  ["inputs","histories"],"all contents within the bound (equal dimension), any iteration order",
  "Tests log the statistics without checking them.",
  ["data/newsync.go","data/util.go","data/data.go"],
  [("Process statistics","data/newsync.go"),("CalculateAverage","data/util.go"),("GetDataInfo","data/data.go")],
  observe=["Data.GetDataInfo"])
p("C16","Dataset configuration only moves to higher versions",
  "Creating a dataset that already exists replaces its configuration if and only if the offered version is strictly higher; so for any sequence or concurrent mix of offers the configuration in force never returns to a lower version and ends at the highest version offered. All options of the accepted configuration take effect together.",
  ["schedules","histories"],"all sequences and interleavings of configuration offers",
  "No test offers two versions; the lost update needs two concurrent offers.",
  ["data/dataset.go"],[("CreateIfNotExists","data/dataset.go")],
  observe=["Dataset.CreateIfNotExists","Data.GetConfig","Data.GetDataInfo"])
p("C17","The dataset index survives restart and crash",
  "After the index is saved, restarting on the same folder restores every dataset that existed, with all its configuration options, and no others. A crash at any point during a save leaves an index from which a restart restores either the set before or the set being saved; saves running concurrently leave such an index too.",
  ["crash_points","histories","schedules"],"every crash point between or inside file operations of a save; all configurations",
  "No test restarts a dataset folder; a crash between truncation and write cannot be produced by a unit test.",
  ["data/dataset.go"],[("SaveIndex","data/dataset.go"),("LoadIndex","data/dataset.go"),("NewDataset","data/dataset.go")],
  state=[dict(name="index.save",meaning="one JSON configuration per line",where="data/dataset.go")],
  observe=["NewDataset + Dataset.List/DataConfigList"])
p("C18","One dataset per name and one maintenance loop per dataset",
  "However many callers concurrently create, look up or insert into the same dataset name, they all get the same dataset with the configuration of the first creation, and data inserted through one is visible through the others; a lookup that must not create never creates. At any moment at most one maintenance loop runs for a dataset.",
  ["schedules"],"all interleavings (bounded preemptions) of concurrent creators, lookups and loop starters",
  "Tests create datasets from one goroutine.",
  ["data/dataset.go","data/data.go"],[("CreateIfNotExists/Get/GetNoCreate","data/dataset.go"),("InitData","data/data.go"),("Run","data/data.go")],
  state=[dict(name="Runs",meaning="number of active maintenance loops",where="data/data.go")],
  observe=["Dataset.GetOrCreateIfNotExists","Data.Run"])
p("C19","The peer table keeps the newest, recent, foreign announcements",
  "For any sequence or concurrent mix of peer announcements, the table holds for each peer the newest recent announcement received; one with a timestamp not newer than the held one, or 300 seconds old or older, changes nothing, and a node never lists itself. A peer's identity depends on its set of addresses only, not on their order.",
  ["schedules","histories","inputs"],"all sequences and interleavings of announcements with arbitrary timestamps and addresses, any clock value",
  "The node test only waits and logs the table.",
  ["node/node.go","node/nodeservice.go"],[("AddPeerElement","node/node.go"),("IsRecent","node/node.go"),("GetIdOfPeer","node/node.go"),("CheckPeer","node/node.go")],
  state=[dict(name="PeerList",meaning="peer id -> newest announcement",where="node/node.go")],
  observe=["Node.AddPeer/Join","Node.PeerListItems"])
p("C20","A data stream delivers every live entry exactly once",
  "Streaming a dataset sends every live entry exactly once, and all of them have been handed to the transport by the time the call returns successfully; the transport's send is never entered by two goroutines at once.",
  ["schedules","inputs"],"all interleavings of the enumerating and the sending side, all contents within the bound",
  "No test streams a dataset; losing the last entry needs the sender to be preempted between receive and send.",
  ["node/nodeservice.go","data/newsync.go"],[("DataStream","node/nodeservice.go"),("StreamAll","data/newsync.go")],
  observe=["Node.DataStream"])
p("C21","A draining node accepts no data and never looks ready",
  "From the moment shutdown has begun, every insert request is refused without storing anything and the readiness endpoint answers 503, whatever maintenance or peer synchronisation still runs; before the first synchronisation it answers 503 too, and 200 after it while in service. The health endpoint answers 200 exactly while the node is healthy.",
  ["schedules","histories"],"all interleavings of shutdown with inserts and with peer synchronisation",
  "No test closes a node or calls the endpoints.",
  ["node/node.go","node/nodeservice.go","server/httpservice.go","state/state.go"],[("Close","node/node.go"),("Insert drain guard","node/nodeservice.go"),("SyncWithPeers","node/node.go"),("GetReady/GetHeath","server/httpservice.go")],
  observe=["Node.Insert","GET /ready","GET /health"])
p("C22","Score functions compute what their names promise",
  "Each score-function name selects its function (Euclidean distance, sum of absolute differences, dot product, cosine similarity, angular similarity 1-acos(cosine)/pi; the Annoy-prefixed names select the same ones, unknown names the Euclidean distance). Distances and dot products use exactly the components both vectors have; all are symmetric, distances are non-negative and 0 for equal vectors, cosine lies in [-1,1] and is 0 when a vector is zero, angular similarity lies in [0,1]; none panics for any lengths.",
  ["inputs"],"all vectors of finite components within the magnitude and dimension bounds, all length pairs",
  "Only benchmarks touch these functions.",
  ["data/util.go","data/search.go"],[("VectorDistance, QuickVectorDistance, VectorMultiplication, CosineSimilarity, AngularDistance","data/util.go"),("GetVectorComparisonFunction","data/search.go")],
  observe=["data.GetVectorComparisonFunction(name)(a,b)"])
p("C23","No request can crash the node",
  "No sequence of service requests that can arrive over the wire - whatever fields are missing, zero or extreme, for inserts, searches, joins, peer announcements, dataset creation, info or streaming - makes a node panic or allocate memory out of proportion to its data; a request lacking what it needs is answered with an error and changes nothing.",
  ["inputs","histories"],"all shapes of request messages (absent sub-messages, empty lists, extreme numbers) and short sequences of them",
  "Tests send only well-formed calls, and none over the service.",
  ["node/nodeservice.go","node/node.go","data/insert.go","data/search.go","data/aggregator.go","data/data.go"],[("Insert/SearchStream/Join/AddPeer/CreateDataIfNotExists/GetDataInfo/DataStream handlers","node/nodeservice.go"),("CheckIfActive","data/data.go"),("Collector.Insert","data/search.go"),("InsertToList","data/aggregator.go")],
  observe=["Node RPC handlers"])
p("C24","Removing a dataset touches only its own folder",
  "Whatever its name, closing, deleting or expiring a dataset never removes or alters files outside that dataset's own folder directly below the node's data folder, nor another dataset's folder.",
  ["inputs"],"all dataset names up to the bound, including separators, dots and empty names",
  "Tests use one benign name.",
  ["data/data.go","data/dataset.go"],[("DeletePath","data/data.go"),("NewData/NewPreData path construction","data/data.go")],
  observe=["paths passed to os.RemoveAll"])
p("C25","Index-assisted search reports only genuine, correctly scored entries",
  "Whatever the native nearest-neighbour index answers, index-assisted search returns at most `limit` entries, each one an entry that was in the dataset at the last index build, matched to its own datum and passing the filters, scored with the requested function against the query; every candidate the index returned in range is kept unless the limit is reached or a filter rejects it. The native index is never given a vector with fewer components than its dimension. Until an index exists the exact search answers instead.",
  ["inputs","histories"],"all candidate lists the index may return, all limits and filters; index built from any contents within the bound",
  "The index tests use one fixed data file and check one label.",
  ["data/search.go","data/newsync.go"],[("SearchAnnoy","data/search.go"),("Process index building","data/newsync.go")],
  state=[dict(name="Annoyer",meaning="native index plus position->datum table",where="data/data.go")],
  observe=["Data.SearchAnnoy"])
p("C26","The connection pool hands out only usable connections",
  "Asking for a connection yields either nothing or a connection to the requested address that was not shut down when it was handed out, after a bounded number of attempts; a connection is kept for reuse on return only if it is healthy. Removing an address closes every connection its pool still holds and no new one is opened through the removed pool.",
  ["histories","fault_sequences"],"all sequences of connection states and dial failures within the bound",
  "No test covers the pool.",
  ["util/connpool.go"],[("ConnectionPool.Get/GetWithRetry/PutIfHealthy/Close/CloseAll","util/connpool.go"),("ConnectionCache","util/connpool.go")],
  observe=["ConnectionPool.Get","grpc.ClientConn.Close calls"])
p("C28","Synchronisation spreads datasets, peers and services",
  "One synchronisation round gives the node every dataset that a listed, recent peer announces, with the highest configuration version among its own and the announced ones, and registers that peer exactly once as a source of that very dataset, under an address that is not the node's own; peers not heard of for 300 seconds are dropped and contribute nothing; every reachable peer is told of every other recent peer, with that peer's own timestamp, and never of itself; services announced by peers become known. A joining round asks every known service and every foreign address of a listed peer exactly once to take the node in, and an own address learned from the answers is listed exactly once; a node that is taken in is told the address it was seen from, if that is a reasonable one. Unreachable peers do not prevent any of this for the others. Both rounds take place when the node starts and then once a minute.",
  ["inputs","histories","fault_sequences"],"all peer tables within the bound (address overlaps, ages, dataset lists and versions), all reachability patterns",
  "The node tests start real nodes on localhost with one address each and wait; they assert nothing about sources, versions or what is sent to whom.",
  ["node/node.go","node/nodeservice.go","data/dataset.go","data/data.go"],[("SyncWithPeers","node/node.go"),("JoinToPeers","node/node.go"),("SendJoinRequest/SendAddPeerRequest","node/nodeservice.go"),("AddSource","data/data.go")],
  state=[dict(name="PeerList, ServiceList, KnownIds",meaning="who is in the cluster and what the node is called",where="node/node.go"),dict(name="Sources",meaning="peers holding the dataset",where="data/data.go")],
  observe=["Node.SyncWithPeers","Node.JoinToPeers","Dataset sources","requests sent to peers"])
p("C29","Data is exchanged as long as the statistics differ",
  "In a maintenance pass a peer's quota of entries is half the difference in size plus one, at most 1000, when its average and histogram together differ from the node's by more than 1% of the maximum distance, or one if the peer is the larger one; it is at most one when they do not differ that much, and none when the peer's statistics are not available. While in service a pass offers and removes no more entries than the sum of the quotas, and offers nothing to a peer without a quota (which has the same statistics and about the same size, or whose statistics are not available).",
  ["inputs","fault_sequences"],"all sizes within the bound on both sides, several shapes of statistics, all random choices of the pass",
  "No test covers the exchange volume; the sampling is random.",
  ["data/data.go","data/newsync.go"],[("DataSourceDiffMap","data/data.go"),("Process sampling and transfer","data/newsync.go")],
  observe=["Data.DataSourceDiffMap","inserts sent to peers","Data contents"])
p("C30","Housekeeping never drops data",
  "A housekeeping round drops a dataset only if it holds no live entry - counted by a maintenance pass yet or not - when the round begins and no known peer reports any; a dataset that is empty here and at all known peers goes. A dataset that is kept keeps its entries, and its maintenance goes on. A dataset within its retention (14 days by default) from its creation is never dropped while it holds entries.",
  ["histories","inputs","fault_sequences"],"all contents, lifetimes, states of the statistics and peer reports within the bound, all moments of the round",
  "No test runs the housekeeping; the loss needs a round to fall between an insert and the next maintenance pass.",
  ["data/dataset.go","data/data.go"],[("ReloadRuns","data/dataset.go"),("CheckIfActive","data/data.go"),("GetRetention","data/dataset.go")],
  state=[dict(name="N",meaning="number of entries at the last pass",where="data/data.go"),dict(name="DataList",meaning="name -> dataset with retention",where="data/dataset.go")],
  observe=["Dataset.GetNoCreate after ReloadRuns","Dataset.List"])
p("C31","The server runs as configured and stops in order",
  "The server started by the serve command listens on the configured port, keeps its datasets in the configured directory and, started again on it, serves and announces the datasets stored there with their configuration. It asks exactly the configured services (a comma-separated list) to take it in, and announces them and exactly the configured broadcast addresses (a comma-separated list without empty entries), each with the server's port if it has no colon. Its HTTP endpoints on port 8000 answer GET: / and /health with 200 exactly while the node is healthy, /ready with 200 exactly while it is ready and not draining, other paths with 404. When the port is taken or serving ends, a configured directory and what is stored in it stay. On SIGINT or SIGTERM the node stops being ready and exits, with code 0, once every entry is handed over to the peers that accept it, and not before.",
  ["inputs","histories","fault_sequences"],"all broadcast lists within the bound, all lifetimes, each way of failing to serve, each signal at rest",
  "No test starts the server command's code; the loss of the directory needs a taken port, the hand-over a signal.",
  ["server/veriserviceserver.go","server/httpservice.go","node/node.go","node/nodeservice.go"],[("RunServer","server/veriserviceserver.go"),("RestApi","server/httpservice.go"),("Listen","node/nodeservice.go"),("NewNode, Close","node/node.go")],
  state=[dict(name="directory",meaning="where datasets are kept across restarts",where="server/veriserviceserver.go")],
  observe=["requests sent to services","addresses listened on","removed paths","exit code and what was sent before it","HTTP status codes"])
p("C27","The native index finds near neighbours",
  "The native approximate index returns distinct stored items ordered by non-decreasing distance with distances equal to the metric, for every data set and query, and its on-disk form behaves as the in-memory one.",
  ["inputs"],"all item sets and queries",
  "Tests use a few hand-made and random sets.",
  ["annoyindex/annoylib.h","annoyindex/annoygomodule.h"],[("AnnoyIndex::_get_all_nns","annoyindex/annoylib.h")],
  observe=["AnnoyIndex.GetNnsByVector"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
