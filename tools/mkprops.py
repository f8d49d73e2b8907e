import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
PK="validator/pki/pki.go"; CE="validator/lib/cert.go"; RO="validator/lib/roa.go"; CM="validator/lib/cms.go"; MF="validator/lib/manifest.go"; OC="cmd/octorpki/octorpki.go"; RR="sync/lib/rrdp.go"
p("A01","No validated object claims resources its ancestors do not hold",
 "No certificate, ROA or manifest is reported valid, and no prefix/ASN authorization is emitted, unless every IP prefix, IP range and AS number it claims is held by each certificate above it up to the trust anchor. Resources marked as inherited are resolved to what the nearest ancestor with explicit resources holds, over any number of consecutive inheriting certificates; if nothing explicit is found the claim is not valid. A ROA prefix outside its own signing certificate never appears in the output.",
 ["inputs","histories"],"every certificate chain up to the enumerated depth, every assignment of explicit/inherited/over-claiming/boundary resources (IPv4, IPv6, ranges, ASNs) to its levels",
 "TestPKI validates one fixed chain without over-claim or inheritance; the claim is about every combination of depth, inheritance and boundary values.",
 [PK,CE,RO],[("containment against parent and ancestors","Validator.ValidateCertificate"),("range containment","RPKICertificate.IsIPRangeInCertificate/IsASRangeInCertificate"),("ROA prefixes against EE certificate","ValidateIPRoaCertificateList")],
 [("valid object table","objects accepted so far, keyed by key identifier")],["the sets of valid objects/ROAs after exploration"])
p("A02","Only objects chaining cryptographically to the TAL key and in date are valid",
 "An object is reported valid only if its certificate is signed by the key of a valid CA certificate and so on up to a self-signed certificate carrying exactly the key in the trust anchor locator, every certificate on the chain is within its validity period at the configured validation time, and, for signed objects, the payload digest and the signature over it verify under the embedded certificate. A non-CA certificate never acts as an issuer.",
 ["inputs"],"every single and pair of signature, key, issuer, digest, date and CA-flag faults at every position of every enumerated tree, at every boundary instant of the validation time",
 "Existing tests use one correctly signed tree; forged combinations at each position and boundary instants are not reached.",
 [PK,CE,CM,"validator/lib/tal.go"],[("certificate validation","Validator.ValidateCertificate"),("CMS verification","CMS.Validate / DecryptSignatureRSA"),("TAL key check","RPKITAL.CheckCertificate")])
p("A03","Revoked certificates and all below them are rejected in any processing order",
 "If a CA's current, correctly signed and published CRL lists a certificate's serial number, then neither that certificate nor any object below it is in the final valid set, in whichever order the CRL, the certificate and the objects below it are listed or processed. A CRL affects only certificates issued by the CA that signed it: one that is not signed by that CA revokes nothing, and equal serial numbers under another CA are untouched.",
 ["inputs","schedules"],"every order of manifest entries, every revoked subset, every tree shape with shared serial numbers, up to the enumerated bounds",
 "Tests contain one CRL in one order; order-dependence needs all permutations.",
 [PK],[("CRL processing","Validator.AddCRL"),("cascading invalidation","Validator.InvalidateObject"),("revoked serial table","Validator.Revoked / CertsSerial")])
p("A04","Files are used only as the issuing CA's current manifest says",
 "With strict manifest and hash checking on, a file whose SHA-256 differs from the manifest entry is never used; a CA whose manifest lists a file that is missing, unreadable or different, or whose manifest is not current at the validation time, contributes no valid certificate or ROA; and a file that no valid manifest lists contributes nothing. Manifest currency is judged at the configured validation time, not the wall clock. With strict manifests off, a missing or altered file costs only itself.",
 ["inputs","configurations"],"every missing/altered/unlisted/re-ordered file, manifest date boundary and faulty-manifest combination, under each strictness setting",
 "TestPKI's seeker supplies no file hashes, so no strict rule is exercised at all.",
 [PK,MF,"sync/lib/fetch.go"],[("exploration with hash/currency checks","SimpleManager.Explore"),("CA invalidation","SimpleManager.InvalidateManifestParent"),("manifest file list","ExtractPathManifest")])
p("A05","Validation outcome is exactly the sound tree, independent of order",
 "For a tree of correctly issued, published and current objects every certificate, manifest and ROA in it is reported valid and every authorization in its ROAs is emitted, whatever the tree's shape, the order of manifest entries, the number of trust anchors or the presence of unknown file types. Validating the same files again gives the same result.",
 ["inputs","schedules"],"all tree shapes and listing orders within bounds, benign variations (unknown file types, inheritance, ranges, IPv4/IPv6 mixes, max-length absent/at bounds)",
 "One fixed tree in one order is tested.",
 [PK,CE,RO,MF],[("breadth-first exploration","SimpleManager.Explore/ExploreAdd/PutFiles"),("object registration","Validator.AddResource")])
p("A06","A CA can only damage its own subtree",
 "Whatever a CA publishes under its own key (expired, forged, malformed, missing, hash-mismatched, revoked or stale objects, or CRLs naming serial numbers used by other CAs), objects that are neither issued by it nor below it validate exactly as if its publication point were healthy. Likewise nothing under one trust anchor changes what is valid under another.",
 ["inputs","fault_sequences"],"each CA of each enumerated tree misbehaving in each one and each pair of the enumerated ways, all other CAs healthy",
 "No test has a misbehaving CA beside a healthy one.",
 [PK],[("object tables shared between CAs","Validator.Objects/ValidObjects/Revoked/CertsSerial"),("path de-duplication","SimpleManager.PutFiles")])
p("A07","Emitted authorizations are well formed and say what the ROA says",
 "Every emitted authorization has a real IPv4 or IPv6 prefix within that family's length, a maximum length between the prefix length and the family's limit (the prefix length when the ROA gives none), and an AS number in 0..2^32-1, and equals an entry of the signed ROA payload. A ROA with any entry breaking these limits emits nothing.",
 ["inputs"],"every prefix length, max length (absent, negative, zero, below, equal, above, over the limit, huge), AS number boundary and address family combination within bounds",
 "ROA tests cover a handful of entries; limits are about all lengths and boundary values.",
 [RO,CE,OC],[("entry validation","ROAEntry.Validate"),("payload conversion","ConvertROAEntries"),("output conversion","OctoRPKI.generateROAList")])
p("A08","No repository content can crash or hang the validator",
 "Feeding any byte string as a TAL, certificate, CRL, manifest, ROA, signed XML message, RRDP document or rsync output to the decoders, and any such file into a validation run (correctly hashed and signed by a misbehaving CA or not), ends with a result or an error: it never panics, aborts the process or fails to terminate. Objects outside the misbehaving CA are still processed.",
 ["inputs"],"all truncations, all single-byte changes, all single structural (TLV) edits of each object kind, nesting chains, all short byte strings",
 "Unit tests decode a few well-formed samples.",
 ["validator/lib/ber.go",CE,CM,RO,MF,"validator/lib/tal.go","validator/lib/xml.go",PK,RR,"ca/xml.go"],[("BER conversion","BER2DER/readObject"),("IP block decoding","DecodeIPAddressBlock"),("CMS signer access","CMS.Validate/GetSigningTime"),("CRL registration","Validator.AddResource")])
p("A09","Signed objects are tamper evident",
 "Changing bytes of a valid certificate, CRL, manifest or ROA never yields an object that is accepted as valid with different meaning (resources, prefixes, AS number, max length, file list, hashes, dates, revoked serials). In particular signatures whose decrypted padding, digest or trailing bytes deviate from PKCS#1 v1.5 are rejected.",
 ["inputs"],"every byte position of each object kind with an exhaustive or boundary set of replacement values; every deviation of the signature block layout in the enumerated menu",
 "Tests verify only untouched objects.",
 [CM,CE,PK],[("CMS signature verification","CMS.Validate, DecryptSignatureRSA"),("certificate signature","RPKICertificate.Validate"),("CRL signature","Validator.AddCRL")])
p("A10","BER to DER conversion preserves the object and rejects malformed BER",
 "For every BER encoding of a value (short, long-form also where the short form would do, or indefinite lengths in any combination, nested up to several hundred levels; lengths padded with zero octets may be refused) conversion yields the same tree of tags and contents with minimal definite lengths; DER input comes back unchanged. Input that is truncated, whose inner elements overrun their container or that is unterminated gives an error, never a value and never a crash.",
 ["inputs"],"all TLV trees up to a size bound with all choices of length encodings; all byte strings up to a small length over a representative alphabet",
 "No test covers the converter.",
 ["validator/lib/ber.go"],[("recursive reader","readObject"),("length encoder","encodeLength")])
p("A11","What the library encodes it decodes to the same thing",
 "Encoding IP resource blocks, AS blocks, ROA payloads, manifests, subject information access lists, trust anchor locators, CRLs or signed objects with the library and decoding the result with the library gives back equal values, for all values in the legal domain; signing then validating succeeds.",
 ["inputs"],"all prefixes/ranges of small address patterns at every length in both families, all AS ranges at boundaries, TALs for every key-size residue and URI list, manifest/ROA lists up to a bound",
 "Round trips are tested on one or two values each, none for TAL decode-of-encode.",
 [CE,RO,MF,CM,"validator/lib/tal.go","validator/lib/crl.go"],[("resource encoders","EncodeIPAddressBlock/EncodeASN/EncodeSIA"),("TAL codec","EncodeTAL/DecodeTAL"),("object codecs","EncodeROAEntries/EncodeManifestContent/EncodeCMS")])
p("A12","Exploration does not repeat validated objects and always terminates",
 "For every reference graph between certificates, manifests and CRLs, including self references, cycles, shared and dangling references, a validation run requests a file at most once for each file that refers to it and never again once it has been validated, finishes after a number of steps bounded by the number of references, reports each valid ROA once, and redundant references never cost a valid object.",
 ["inputs"],"all reference graphs over a small number of nodes (each certificate's manifest pointer and each manifest's file list chosen freely among all files)",
 "The tested graph is a tree.",
 [PK],[("work queue de-duplication","SimpleManager.PutFiles/GetNextFile"),("exploration loop","SimpleManager.Explore")])
p("B01","After a successful RRDP poll the cache holds what the server publishes",
 "After every RRDP poll that reports success, the local cache holds, byte for byte, every object the server currently publishes, and no object withdrawn by an update the client applied; the recorded session and serial are the server's. A poll that fails leaves the recorded session and serial unchanged, and the next fault-free poll repairs the cache.",
 ["histories","fault_sequences"],"all interleavings of publish/replace/withdraw/session-reset/history-trim/roll-back server steps with client polls, each poll with a fault at each request, up to a depth bound",
 "There is no RRDP test.",
 [RR,OC],[("delta/snapshot decision","RRDPSystem.FetchRRDP"),("document parsing","ParseRoot/ParseNode"),("cache update","OctoRPKI.ReceiveRRDPFileCallback"),("recorded state","OctoRPKI.RRDPInfo")])
p("B02","A crash at any point of synchronisation is repaired by the next run",
 "If the process dies at any point while updating the cache or saving its RRDP state, including in the middle of writing a file, then a restarted process completes, and after its next successful poll of each repository the cache holds every published object byte for byte: no recorded serial is ever ahead of the data on disk.",
 ["crash_points","histories"],"every file-system operation of every enumerated poll history as crash point, with not-started/empty/half-written/complete variants of the interrupted write",
 "No test crashes the process.",
 [OC,RR],[("state file","OctoRPKI.LoadRRDPInfo/saveRRDPInfo"),("object writes","OctoRPKI.WriteRsyncFileOnDisk")])
p("B03","Nothing outside the cache directory is written or read on a server's say-so",
 "No URI or path supplied by a TAL, certificate, manifest, RRDP document or rsync server makes the program create, modify, delete or read a file, or point rsync, outside its cache directory; an RRDP server can only store objects under the rsync host it is bound to (the repository host of the CA whose certificate names it first). Offending entries are skipped or fail that fetch, and never stop the process.",
 ["inputs"],"all paths built from a menu of hostile components and prefixes up to a length bound, through each channel that carries a path",
 "Two path helper functions are tested on one value each.",
 [OC,PK,"sync/lib/fetch.go","sync/lib/rsync.go","sync/lib/utils.go"],[("RRDP object writer","OctoRPKI.WriteRsyncFileOnDisk/ReceiveRRDPFileCallback"),("manifest path filter","ExtractPathManifest"),("rsync destination","OctoRPKI.fetchRsync/ExtractRsyncDomainModule"),("cache reader","LocalFetch.GetFileConv")])
p("B04","Every repository is fetched exactly once per round, with rsync as RRDP fallback",
 "In each round every known repository with an RRDP endpoint is polled over RRDP exactly once, and is fetched with rsync in the same round if and only if it has no RRDP endpoint, RRDP is disabled, or its poll failed and failover is enabled and the failure was not an oversized response. The number of simultaneous fetches never exceeds the configured maximum, validation starts only after all fetches ended, and all this holds in every completion order.",
 ["schedules","fault_sequences"],"all outcome assignments to up to the enumerated number of repositories, all completion orders of concurrent fetches, worker limits 1..3",
 "No test runs the fetch round.",
 [OC,"cmd/octorpki/rrdp_fetcher.go","cmd/octorpki/rsync_fetcher.go"],[("worker pools","rrdpFetcher/rsyncFetcher"),("failover bookkeeping","rsyncFetchJobManager, OctoRPKI.rrdpError")])
p("B05","RRDP content that does not match its notification is not accepted",
 "A snapshot or delta document that does not have the hash announced in the notification, is truncated, is not well-formed XML, is a different kind of document or carries undecodable content makes the poll fail with an error instead of advancing the recorded session or serial. A response over the size limit or with a status other than 200 is an error too.",
 ["inputs","fault_sequences"],"every truncation point, every document substitution and every single-character class of damage, at each document of a poll",
 "There is no RRDP test.",
 [RR],[("document parsing","ParseRoot/ParseNode"),("retrieval","HTTPFetcher.GetXML"),("poll","RRDPSystem.FetchRRDP")])
p("B06","rsync runs are reported faithfully",
 "For every output and exit behaviour of the rsync program the run ends once rsync ends, reports an error when rsync failed, and otherwise returns exactly one entry per listed RPKI file (extensions cer, mft, crl, roa, gbr), in order, marked deleted when rsync said so and located under the fetched URI.",
 ["inputs","fault_sequences"],"all sequences of up to three output lines from a line menu (long lines, deletions, unusual names, missing final newline) crossed with exit codes, stderr activity and URI shapes",
 "Only path helpers are tested.",
 ["sync/lib/rsync.go"],[("process run and output parsing","RunRsync/FilterMatch")])
p("B07","Whatever the cache holds, a round of working servers leads to the full result",
 "For every content of the cache directory at the start of the program (any files missing, empty, cut off, garbage, from an earlier publication or expired, with the RRDP state file absent, unreadable or from an old session) and for everything servers published before they were repaired, once every server works and publishes a valid tree, the program arrives at a stable result with exactly the authorizations of that tree; no content of a CA's own repository keeps that repository from being fetched again.",
 ["histories","fault_sequences"],"all cache contents with up to two deviating files from uniform ones and all combinations of current, absent, older and expired repositories, over all assignments of transports, in the cache or served and then repaired with and without a restart",
 "No test starts the program on an existing cache.",
 [OC,PK],[("which repositories are fetched","OctoRPKI.mainValidation"),("CAs invalidated by their manifest","SimpleManager.InvalidateManifestParent")])
p("B08","What rsync servers publish is in the cache, whatever was there before",
 "For every layout of hosts, ports, modules and directories of trust anchor certificates and repositories, every prior state of the cached copies (absent, other modification times, same size and other content, cut off, longer, symbolic link, no permissions, directory in place of a file) and every history of publications with older or newer modification times and hosts failing and returning, after a round in which the rsync servers work every published object of every repository in use is in the cache at the path of its URI and equal to what is published, and the resulting list is that of the publication.",
 ["histories","fault_sequences"],"the real rsync: all single and pair deviations of cached files, all histories of three publications with older and newer times, all sets of failing hosts in two successive rounds, over six layouts",
 "No test runs rsync.",
 [OC,"sync/lib/rsync.go"],[("rsync run","syncpki.RunRsync, OctoRPKI.fetchRsync"),("which modules","OctoRPKI.mainValidation/mainRsync")])
p("C01","Without a stable result the service answers 503 and never serves partial data",
 "With waiting for stability enabled, a request for the ROA list or the resource list answers 200 only with a complete result, i.e. one produced by a validation round that discovered no new repository (or after the iteration limit); until the first such result, and whenever the latest round found new repositories, requests answer 503 or an earlier complete result, never a partial list. The health endpoint reports ready only in the former case.",
 ["schedules"],"all interleavings, up to the preemption bound, of HTTP handlers with the validation loop at statement granularity over start-up, growth and re-validation histories",
 "No test runs the loop or the handlers.",
 [OC],[("gates","OctoRPKI.Stable/HasPreviousStable"),("publication","OctoRPKI.setROAList"),("handlers","OctoRPKI.ServeROAs/ServeResources/ServeHealth")])
p("C02","Iteration reaches every repository and always stops",
 "For every graph of delegations between repositories, validation rounds continue until a round discovers no new repository, and the result declared stable then contains the ROAs of every reachable repository; with unboundedly growing delegations the loop stops after the configured iteration limit and publishes (or, in a one-off run, writes) what it has. A result is never declared stable in the first round.",
 ["inputs","histories"],"all delegation graphs over a small number of repositories, each reachable over RRDP and/or rsync, all iteration limits in range",
 "No test runs the loop.",
 [OC],[("validation loop","OctoRPKI.validationLoop"),("change detection","OctoRPKI.MainReduce"),("repository discovery","OctoRPKI.mainValidation")])
p("C03","Each ROA-list response is self-consistent and cacheable correctly",
 "Every 200 response for the ROA list is one generated list in full: its count equals its number of entries, both its signatures verify over exactly that content, its max-age does not outlive the validity stated in it, and two responses share an ETag only if their content is identical; a conditional request gets 304 only if the client's copy equals the current list. This holds in every interleaving of requests with regeneration.",
 ["schedules","histories"],"all interleavings, up to the preemption bound, of up to two requests with list regeneration; all sequences of list contents and clock steps up to a bound",
 "No test serves a list.",
 [OC],[("ROA list handler","OctoRPKI.ServeROAs"),("list generation and signing","OctoRPKI.generateROAList/signROAList")])
p("C04","The published list is exactly the valid authorizations",
 "The published ROA list is the set of authorizations of all valid ROAs under all trust anchors, each labelled with its trust anchor's name, without duplicates; with filtering enabled it is that set minus prefixes longer than /24 (IPv4) or /48 (IPv6), and nothing else is dropped, added or altered. The per-trust-anchor counts add up to the authorizations found.",
 ["inputs","configurations"],"all multisets of authorizations up to a bound across one to three trust anchors, all filter/name/sign settings, all orders",
 "TestFilter checks the filter on one list; assembly of the list is untested.",
 [OC,"cmd/octorpki/filter.go"],[("assembly","OctoRPKI.generateROAList"),("filters","FilterInvalidPrefixLen/FilterDuplicates/filterDuplicates")])
p("C05","Certificate Transparency gets every chain, complete and once",
 "When submission is enabled, each valid object leads to exactly one submission per round holding its certificate followed by its issuers in order up to the trust anchor, for any number of threads and any completion order; unavailable files or failing submissions lose only their own chain and never stop the process.",
 ["schedules","fault_sequences"],"all enumerated trees, thread counts and completion orders, missing-file and HTTP failure placements",
 "No test covers submission.",
 ["cmd/octorpki/ct.go",OC,"cmd/ctrpki/ctrpki.go"],[("chain construction","OctoRPKI.ct"),("submission pool","OctoRPKI.SendCertificateTransparency, ctrpki main")])
p("C06","The resource and information pages describe the current state",
 "The resource list names exactly the certificates, ROAs and manifests that are valid, each once, with its own key identifiers, serial, validity, resources and file hash; the information page lists for every trust anchor exactly the repositories discovered under it with their current RRDP endpoints and the correct authorization counts.",
 ["inputs","histories"],"all enumerated trees with revocations and faults, trees with many repositories, all discovery orders",
 "No test covers either page.",
 [OC,"api/schemas/schemas.go",PK],[("resource assembly","OctoRPKI.generateROAList"),("information page","OctoRPKI.ServeInfo/mainValidation")])
p("C07","Trust anchors are fetched, failed over and trusted only as their TAL says",
 "For every TAL with any mix of https and rsync locations and any outcome of each download, the https locations are tried in order until one yields a certificate with the TAL's key, the (first) rsync location is used when all https downloads fail and failover is on, and only a certificate with the TAL's key is ever used as trust anchor; a wrong, expired or broken download never displaces the trust of other TALs or a valid certificate that is in the cache, and is retried in the next round; a reissued certificate offered over https is in use from the next round on.",
 ["fault_sequences","configurations"],"all location lists up to three entries, all outcome assignments (right certificate, a reissued one, wrong key, expired, broken, garbage, error status, connection error) over up to three rounds",
 "TAL decoding is tested on samples; fetching is not.",
 [OC,"validator/lib/tal.go",PK],[("TAL download","OctoRPKI.mainTAL/fetchTAL"),("TAL key check","Validator.AddResource")])
p("C08","The monitoring page tells what happened to repositories and validation",
 "For every history of polls, in which repositories work, fail and recover and publications change, the metrics page tells at each rest the number of valid authorizations of every trust anchor, one error more for exactly every RRDP or rsync fetch that failed, and the time, serial and number of files of the last successful fetch of each repository; the state is 'stable' exactly when the discovery is complete and the health page answers 200 only from the first complete result on.",
 ["histories","fault_sequences"],"all histories of three rests with every combination of how two repositories over RRDP or rsync behave in each and of what is published between them, with failover, RRDP and the iteration limit varied",
 "No test reads the monitoring page.",
 [OC,"Monitoring.md"],[("metrics of fetches and results","MetricROAsCount, MetricState, OctoRPKI.fetchRRDP/fetchRsync/fetchTAL"),("health","OctoRPKI.ServeHealth")])
p("C09","A server that stops answering delays a round and stops nothing",
 "For every set of https, RRDP and rsync servers, and the Certificate Transparency log, that stop answering at any point (before or within an answer, with the connection or the rsync processes left open), every request to them is given up after its timeout and counts as failed, and everything goes on as if they had failed at once: all other fetches take place, failover applies, the result, the cache and the requests are the same, later rounds come after the refresh interval and take up what the servers then publish, and no rsync process is left running.",
 ["fault_sequences","histories"],"histories of two or three rests with one or two servers hanging in any phase at any of the enumerated points, over transports, failover, worker limits and modes; the real rsync with a server that stops after each of a range of byte counts",
 "No test has a server that does not answer.",
 [OC,"sync/lib/rsync.go","sync/lib/rrdp.go","cmd/octorpki/ct.go"],[("timeout of rsync","OctoRPKI.fetchRsync, syncpki.RunRsync"),("timeout of downloads","syncpki.NewHTTPFetcher"),("refresh interval","OctoRPKI.validationLoop")])
p("C10","A client that does not read, breaks off or asks oddly disturbs nothing",
 "Whatever clients of octorpki's pages do (ask for any page in any way at any moment, read their answers slowly or never, or go away), rounds of fetching and validation go on without waiting for them, other requests are answered, and every page says at every rest what it would say without them; and a client that reads slowly gets what a quick one got.",
 ["histories","schedules"],"histories of three publications with one or two such clients, at every request the program makes to a server and at every rest, for every page and several methods and headers, going on after one or two rests or never",
 "Tests call handlers one after the other, with recorders that never block.",
 [OC],[("pages","OctoRPKI.ServeROAs, ServeResources, ServeInfo, ServeHealth, Serve"),("publication of results","OctoRPKI.setResult, setInfoAuthorities")])
p("C11","Work that goes on at the same time never shares data without order",
 "Fetches by any number of workers, submissions to the Certificate Transparency log, validation, publication of results and the requests of clients, which all take place at the same time, never access the same memory without synchronisation that orders the accesses (unless both only read), in octorpki and ctrpki, whatever the servers do and in whatever order they answer.",
 ["schedules","histories"],"runs of the real programs over histories of three publications: repositories of up to three or four CAs by transport, which answers are held back while pages are requested by several clients at once, the order in which they go on, restarts, settings; the happens-before relation of each run is checked for every pair of accesses, which covers all schedules with the same order of locks and messages",
 "A test sees one schedule, on which a race is invisible unless it strikes; the damage (a crash of the whole program on concurrent map writes, mixed results) shows once in many thousand runs.",
 [OC,"cmd/octorpki/rrdp_fetcher.go","cmd/octorpki/rsync_fetcher.go","cmd/octorpki/ct.go","sync/lib/rrdp.go","sync/lib/rsync.go","cmd/ctrpki/ctrpki.go"],[("fetch workers","rrdpFetcher.worker, rsyncFetcher.worker"),("shared state","OctoRPKI.fetchRRDP, rsyncFetchJobManager, setResult, ServeInfo"),("submissions","BatchCertificateTransparency")])
p("D01","Origin validation follows RFC 6811 exactly",
 "For every set of VRPs and every route the result is NotFound if no VRP prefix covers the route, Valid if some covering VRP has the route's (non-zero) origin AS and a max length not below the route's prefix length, and Invalid otherwise, and the returned VRPs are exactly the covering ones. The answer does not depend on VRP order, duplicates, earlier queries or concurrent queries.",
 ["inputs","schedules"],"all VRP multisets up to a size over a small prefix universe in both families, all routes, all insertion orders, all interleavings of two queries at callback granularity",
 "Three examples are tested.",
 ["ov/ov.go"],[("prefix tree query and state","OriginValidator.Validate / curValidation.Filter")])
p("E01","Offline validation depends only on the files and the options",
 "The offline validator's output file holds exactly the authorizations valid at the requested validation time (given as timestamp, RFC 3339 or now) under the requested strictness for the given TALs and directory mapping, each with its ASN, prefix, max length and source path, and is the same on every run.",
 ["inputs","configurations"],"all enumerated trees on disk crossed with validation instants around every boundary date, time formats and strictness flags",
 "The command has no test.",
 ["cmd/localrpki/localrpki.go",PK,"sync/lib/fetch.go"],[("command","localrpki main"),("file access","LocalFetch.GetFile")])
p("F01","Validation over the RPKI API judges files like validation of local ones",
 "When the validator reads its files through the API client (sync/api), the objects found valid, the authorizations emitted and the errors are the same as when the same files lie on disk: manifest hashes and manifest currency are enforced, BER is normalised, a file that is not served or cannot be fetched counts as missing, locations outside rsync are refused, and a directory listing that breaks off is reported as an error and never taken for a complete one.",
 ["inputs","fault_sequences"],"all single deviations of the enumerated trees under every strictness setting, every file failing, and every point at which a listing can break off",
 "The API client has no test; its server is never run by the suite.",
 ["sync/api/fetch.go",PK],[("file access over the API","APIFetch.GetFile/FetchFile"),("listing over the API","APIFetch.GetRepository")])
p("F02","Publication and setup messages decode exactly or are refused",
 "A publication (RFC 8181) or setup (RFC 8183) message decodes to exactly the kind, attributes and elements it contains, in order, whatever the legal spelling (quotes, escapes, comments, white space, empty element forms); truncated messages, messages of another kind or namespace, and messages followed by other text or elements are refused, and what the library writes it reads back unchanged.",
 ["inputs"],"all lists of up to three (four) elements of every kind in every message kind and spelling, all truncations of the short ones, every kind of trailing material",
 "Package ca has no test.",
 ["ca/xml.go","validator/lib/xml.go"],[("message decoders","DecodeXML/DecodeXMLFull/DecodeXMLCRFull/DecodeXMLPRFull"),("element decoder","DecodeInner"),("signed messages","EncodeXMLData")])
import os
with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    import re
print(len(P))
