import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
T="explicit bounded-exhaustive model checking: every case of the enumerated space is executed on the real code and compared with an independent reference model"
C={
"A01":(T,"every certificate chain (depth, inherited/explicit/over-claiming/boundary resources per level and family) within the bounds; real validator, real signatures"),
"A02":(T,"all 1- and 2-deviation worlds of signature, issuer, digest, date and CA-flag faults over five tree shapes"),
"A03":(T,"every manifest order x every revoked subset on trees with shared serial numbers, plus all CRL faults in pairs"),
"A04":(T,"all 1- and 2-deviation worlds of missing/altered/unlisted files and manifest/CRL dates over five tree shapes under every strictness setting"),
"A05":(T,"all tree shapes up to 4 (5) CAs, listing orders, payload shapes and date boundaries; every object has to be valid, twice"),
"A06":(T,"every 1-deviation and hostile 2-deviation of each CA; differential comparison of everything outside the CA's subtree; one known finding (key identifier reuse)"),
"A07":(T,"all address lengths, families, max lengths and AS numbers of ROA payloads at their boundaries; exact expected authorizations; one known finding (explicit -1)"),
"A08":(T,"every structural edit (1 and 2 deep) of every object kind, all truncations and length edits, through every decoder and the validator; hang and crash monitor"),
"A09":(T,"every byte x replacement menu, every signature block layout in the menu; meaning of accepted objects compared with the original's"),
"A10":(T,"all TLV trees up to the size bound x all length forms, all short strings; reference converter"),
"A11":(T,"all values of the small domains: encode, decode, compare (non-strict CMS decoding: the library signs with the rsaEncryption identifier by design)"),
"A12":(T,"all reference graphs within 2 (3) deviations of a three-CA tree and the full product for two CAs; step and request bounds monitored on the real validator"),
"B05":(T,"every single and double alteration of notification, snapshot and delta documents, statuses and sizes, through the real RRDP client; strict reference XML reader decides what has to be refused"),
"B06":(T,"all rsync output scripts up to the line bound x exit statuses x target URLs, run through the real runner with a scripted rsync program"),
"D01":(T,"all small VRP sets x all routes of the enumerated prefix universe, in every insertion order and with concurrent queries; linear reference implementation of RFC 6811"),
"E01":(T,"all worlds x option combinations of the real localrpki binary; output compared with the reference model and with a second run"),
}
exec(open(V+"/tools/checks_more.py").read()) if os.path.exists(V+"/tools/checks_more.py") else None
m={"version":1,"setup_cmd":"bash setup.sh","checks":[],"not_applicable":[]}
for i in ids:
    if i in C:
        m["checks"].append({"property":i,"quick_cmd":"VERIF_TIER=quick ./run.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./run.sh "+i,"technique":C[i][0],"level":"model_checking","level_note":C[i][1]})
    else:
        m["not_applicable"].append({"property":i,"reason":"check not built yet"})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
