C.update({
"B01":(T,"all histories up to the depth bound of publish/replace/withdraw/session reset/trim/roll-back steps and client polls with a fault at each request, run through the real octorpki program; server model decides what the cache has to hold"),
"B02":(T,"every file-system operation of every enumerated poll history of the real program as crash point, each with four torn-write variants, then restart and recovery"),
"B03":(T,"a menu of hostile locations and names at every place a TAL, certificate, manifest, RRDP document or rsync server can put one; every file operation and rsync run of the real program is recorded and judged"),
"B04":(T,"fetch topologies x outcome of every poll x order in which the held-back answers of concurrent fetches arrive x worker limits and flags, on the real program; the set of fetches of every round is compared with the model's"),
"C07":(T,"every list of up to three https and rsync locations x what each offers at each of two attempts x initial cache content x failover, on the real program; requests and resulting trust are compared with a model"),
"C01":(T,"every request (start state, pause position, continuation state) interleaved with the real validation loop of the instrumented program over discovery rounds, updates and iteration limits; quick: one pause, thorough: also two pauses within a window"),
"C03":(T,"the same interleavings of list requests, conditional on every Etag seen, with regeneration; every answer's count, signatures, max-age, Etag and content are checked"),
"C04":(T,"boundary-case authorizations alone, in pairs and in all small multisets x every distribution over ROAs, CAs and trust anchors x filter, name, signing and output settings; the list the real program serves or writes is compared with the model's set"),
"C06":(T,"a forest with every single fault and systematic pairs of them, at once and over successive rests, every form of resources, assignments of CAs to modules and endpoints; both pages of the real program are compared field by field with a model"),
"C02":(T,"all forests of delegations of up to 4 (5) CAs x assignments to repositories x transports and failures x parts appearing later, restarts, one-off runs, iteration limits and endlessly moving repositories, on the real program; rounds and lists are compared with a model of the discovery"),
"C05":(T,"all small trees x threads x completion orders of the submissions (a controlled log server), every single fault of objects, every placement of a failing submission and of a failing file read, every round of a discovery; octorpki's real main loop and the real ctrpki program"),
"B07":(T,"every content of the cache with up to two deviating files, every mixture of current, absent, older and expired repositories, at the start or served and then repaired, over all transports; the real program has to arrive at the full list"),
"B08":(T,"every deviation of cached files from the publication, singly and in pairs, every history of three publications with older and newer times, every set of failing hosts, on six layouts; the real program runs the real rsync against daemons of the check's own, and the cache and the list are compared with the publication"),
"C08":(T,"all histories of three rests of two repositories that work, fail and recover x publications x failover, RRDP and iteration limit; the monitoring page of the real program is compared at every rest and during every discovery with what the scripted servers saw"),
"C09":(T,"every placement of one or two servers that stop answering, at every enumerated point and phase of a history, on the real program with real processes and the real rsync; result, cache and requests are compared with those of the same history with servers that fail at once"),
"C10":(T,"every page, in several ways, by one or two clients that stop reading or are gone, at every request of the real program to a server and at every rest of a history of three publications; all pages at every rest are compared with those of the same history without these clients"),
"C11":(T,"all histories of the enumerated topologies, gates, release orders, page requests, modes and settings on the real programs; on each execution every pair of memory accesses is checked against the happens-before relation (vector clocks of Go's race detector), so that one execution stands for all schedules with the same order of locks and messages"),
"F01":(T,"all single deviations of the world menu under every strictness setting validated over a scripted API server and from disk, and compared; every file failing in three ways; every point at which a listing can break off"),
"F02":(T,"every message of up to 3 (4) elements of every kind in several spellings, every truncation, wrong kinds and namespaces, trailing material; compared with what was written"),
})
