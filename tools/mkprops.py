import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    for k,v in kw.items(): a[k]=[{"name":x.split(":")[1],"where":x} for x in v]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
C="validator/lib/cert.go";R="validator/lib/roa.go";K="validator/pki/pki.go";B="validator/lib/ber.go";M="validator/lib/manifest.go";S="validator/lib/cms.go";X="validator/lib/xml.go";T="validator/lib/tal.go";RR="sync/lib/rrdp.go";O="cmd/octorpki/octorpki.go";F="cmd/octorpki/filter.go"
p("C01","Resource containment and partition of IP/ASN lists is exact",
 "An IP range (or AS number range) is reported as contained in a certificate only if one single resource block of that certificate contains both of its ends, and as 'ask the issuer' only if an inherit block of that address family was met first. When a child's resource list is checked against an issuer, each inherit entry and each contained entry is classified valid, each entry that must be resolved further up is classified as such, every other entry is classified invalid, each entry lands in exactly one class, and the order is kept.",
 ["inputs"],"all resource lists, all issuer certificates, all addresses of either family",
 "tests sample a few prefixes; over-claims hide at block edges, mixed families, inherit in the middle of a list, or a list position the tests do not use",
 [C],[("block membership",C+":IsIPInRange,IsASNInRange"),("range membership",C+":IsIPRangeInCertificate,IsASRangeInCertificate"),("partition",C+":ValidateIPCertificateList,ValidateASNCertificateList")])
p("C02","Certificates are accepted only if time, issuer, signature, CRL and resources fit",
 "A certificate that is not a trust anchor is accepted only if the validation time lies within its validity period (both ends included), its issuer is currently valid and is a resource certificate, its signature verifies under that issuer's key, its serial has not been revoked by that issuer, and each IP and AS resource it claims is inherited or contained in the resources of its issuer or, where the issuer inherits, of the nearest ancestor up the chain that does not; a claim which no ancestor in the chain settles is refused. A trust anchor certificate is accepted only within its validity period.",
 ["inputs","histories"],"every certificate, every store of previously validated objects, every chain length",
 "tests use one hand-built chain of fixed depth; over-claims through several levels of inheritance and missing or non-certificate ancestors are never exercised",
 [K,C],[("acceptance gate",K+":ValidateCertificate"),("time validity",C+":ValidateTime"),("signature",C+":Validate")])
p("C03","The store of known certificates stays consistent when certificates are added",
 "A certificate whose subject key identifier is already known is rejected and the store of known, valid and serial-indexed certificates is left exactly as it was. Otherwise the certificate becomes known, becomes valid exactly when it passes validation, is attached to its issuer as a child and indexed by issuer and serial exactly when it is valid and has a known issuer, and no other entry of the store changes.",
 ["inputs","histories"],"every certificate and every reachable state of the validator store",
 "the frame (nothing else changes) and the duplicate rule quantify over all store contents; tests look only at the inserted entry",
 [K],[("insert",K+":AddCert"),("initial store",K+":NewValidator")],state=[K+":Validator"])
p("C04","Invalidating a certificate removes everything issued below it, and nothing else",
 "After a certificate is invalidated, neither it nor any certificate, ROA, CRL or manifest reachable from it through parent-to-child links is in the sets of valid objects any more. Every valid object that is not reachable from it stays valid, and the operation ends even if the links contain cycles.",
 ["inputs","histories"],"every object graph (any depth, width and sharing) and every start key",
 "transitive closure over arbitrary graphs; tests use a three-level tree and look at the first level",
 [K],[("closure",K+":InvalidateObject"),("child identifiers",K+":GetIdentifier")],state=[K+":Validator"])
p("C05","A CRL acts only if signed by a valid issuer, and then revokes all it lists",
 "A revocation list changes what is valid or revoked only if its issuer is a currently valid resource certificate and its signature verifies under the issuer's key. When it takes effect, each listed serial is recorded as revoked for that issuer only, every already accepted certificate of that issuer with a listed serial is invalidated, and revocations recorded earlier are kept. A list that names an unknown issuer is refused without ending the process.",
 ["inputs","histories"],"every CRL, every number of entries, every store state",
 "forged or orphan CRLs, serials shared by different issuers and revocation arriving after or before the certificate are combinations that tests do not enumerate",
 [K],[("apply CRL",K+":AddCRL"),("revocation lookup",K+":ValidateCertificate"),("serial index",K+":AddCert")],state=[K+":Validator.Revoked"])
p("C06","A ROA is accepted only if its certificate, signature and entries are all valid",
 "A ROA is put in the set of valid ROAs only if its end-entity certificate was accepted by certificate validation, the signed-object check of its content succeeded, and every entry has a maximum length between its prefix length and the family's limit (32 or 128). The list of usable entries of a decoded ROA holds exactly those entries whose whole address range is contained in the end-entity certificate's own resources, each decoded entry being in exactly one of the usable, unusable and undecided lists.",
 ["inputs","histories"],"every ROA content, every certificate and every store state",
 "the gate is a conjunction over three independent components; tests never combine a failing component with succeeding ones, nor odd prefix encodings",
 [K,R],[("gate",K+":AddROA,ValidateROA"),("entry checks",R+":Validate,ValidateEntries"),("coverage",R+":ValidateIPRoaCertificateList")],state=[K+":Validator.ValidROA"])
p("C07","A manifest is accepted only if valid and names no file outside its repository",
 "A manifest is put in the set of valid manifests only if its end-entity certificate was accepted by certificate validation and the signed-object check of its content succeeded. A manifest any of whose file names contains a step to a parent directory (.. followed by a slash or backslash) is refused as a whole without any change to the store; otherwise exactly the listed files, in order, with their listed hashes and the type implied by their extension, are queued.",
 ["inputs","histories"],"every file list and every store state",
 "path tricks at any list position and store side effects before a refusal cannot be enumerated",
 [K,M],[("gate",K+":AddManifest"),("file list",K+":ExtractPathManifest,DetermineType")],state=[K+":Validator.ValidManifest"])
p("C08","Signed objects count as intact only if digest and signature cover the content",
 "A decoded ROA, manifest or XML message is marked as inner-valid only if the digest of exactly the content that was decoded equals the message-digest attribute, and the signature of the first signer over the signed attributes verifies under the RSA key of the embedded certificate. In strict mode a ROA or manifest whose signature algorithms do not match between certificate and message is refused.",
 ["inputs"],"all byte strings, keys and attribute lists",
 "tests check genuine objects; a check that is skipped, ignores its result, or covers other bytes than those used goes unnoticed on genuine objects",
 [S,R,M,X],[("digest+signature",S+":Validate"),("ROA",R+":DecodeROA"),("manifest",M+":DecodeManifest"),("XML",X+":DecodeXML"),("algorithm match",S+":CheckSignaturesMatch")])
p("C09","A trust anchor certificate must carry the key pinned by its locator",
 "A certificate fetched because a trust anchor locator named it is taken into the store only if its public key is an RSA key with the same modulus and the same exponent as the key in that locator; otherwise it is refused and the store is unchanged. Only files introduced by a locator are treated as trusted.",
 ["inputs","histories"],"all keys, locators and certificates",
 "tests use the right key; partial comparisons (modulus only, algorithm only) pass on it",
 [T,K],[("key comparison",T+":CheckCertificate"),("binding",K+":AddResource,AddTAL"),("trust flag",K+":AddTAL,ExtractPathCert,ExtractPathManifest")])
p("C10","Only files that match the hash in their manifest are processed",
 "While exploring with strict hashing, a fetched file whose manifest lists a hash is handed to validation only if its digest equals the listed hash; a mismatch is reported and the file is not processed. With strict manifests, when a file listed by a manifest is missing, unreadable or mismatching, or (with strict hashing) its manifest is outside its own validity window, the certificate that issued the manifest is invalidated.",
 ["inputs","histories","fault_sequences"],"every queue of files, every fetch outcome and every clock value",
 "needs every combination of fetch failure, hash mismatch and manifest age at any position of the queue",
 [K],[("exploration loop",K+":Explore"),("invalidate CA",K+":InvalidateManifestParent")])
p("C11","Each file path is explored at most once",
 "A file is queued for exploration only if no file with the same resolved path was queued or explored before, files are handed out in the order in which they were queued without loss, and a file whose path was already explored is not fetched again. The resolved path of a file listed in a manifest is the manifest's repository, one separating slash and the listed name; the resolved path of any other file is its own path.",
 ["inputs","histories"],"every sequence of queueing and dequeueing operations",
 "loops between repositories (A lists B, B lists A) and duplicate names need arbitrary histories",
 [K],[("queue",K+":PutFiles,GetNextExplore,HasMore"),("fetch guard",K+":GetNextFile"),("path",K+":ComputePath")],state=[K+":SimpleManager"])
p("C12","BER to DER conversion never fails hard and writes minimal DER lengths",
 "For every byte string, converting BER to DER returns either an error or an output, without reading outside the input and without crashing. Each length written is the minimal DER length encoding of the number of content bytes that follow.",
 ["inputs"],"all byte strings of any length and nesting",
 "truncations at every offset and every nesting of definite and indefinite lengths cannot be enumerated",
 [B],[("parser",B+":readObject,isIndefiniteTermination"),("length encoder",B+":encodeLength,marshalLongLength,lengthLength")])
p("C13","Address encodings decode to exactly the range they denote",
 "A bit string of n bits of an IPv4 or IPv6 family decodes as a prefix to that family's address with exactly those leading bits and prefix length n, and as the lower or upper end of a range to the address whose remaining bits are all zero or all one; encodings too long for the family, or of an unknown family, are refused. The first and last address computed for a prefix are the prefix bits followed by all zeros and all ones, and encoding a prefix back yields the same bits and bit count.",
 ["inputs"],"every family, bit length and bit pattern",
 "off-by-one errors in bit masks show only for particular lengths (multiples of 8, full length, zero)",
 [C,R],[("prefix",C+":DecodeIP"),("range ends",C+":DecodeIPMinMax"),("first/last",R+":GetRangeIP"),("encode",C+":IPNetToBitString"),("block decode",C+":DecodeIPAddressBlock")])
p("C14","Hostile bytes cannot crash the object decoders",
 "For every byte string, decoding a certificate, resource extension, ROA, manifest, XML message or signed-message envelope, and everything computed from the result while decoding (coverage of ROA entries, digest and signature checks, signing time), returns a value or an error and never crashes the process.",
 ["inputs"],"all byte strings and everything a parser of ASN.1 can return for them",
 "crashes need particular malformed encodings (unknown family, oversized prefix, no signer, empty attribute)",
 [C,R,M,S,X],[("certificate",C+":DecodeCertificate,DecodeIPAddressBlock,DecodeASN"),("ROA",R+":DecodeROA,ConvertROAEntries"),("manifest",M+":DecodeManifest"),("CMS",S+":Validate,GetSigningTime,BadFormatGroup")])
p("C15","RRDP updates apply complete gap-free history or a fresh snapshot",
 "An RRDP update that reports success has fetched either the snapshot named by the notification, or every delta from the last known serial plus one up to the announced serial in ascending order; deltas are used only if the session is unchanged, an earlier serial is known and the notification lists every serial from the last known one to the announced one. The remembered session and serial change only after every fetched publish and withdraw element has been handed over successfully, and then the session is the announced one; on any failure they are left unchanged.",
 ["inputs","histories","fault_sequences"],"all notifications, session and serial histories, and failures at any point",
 "gaps, session changes, repeated serials and a failure at the n-th element of the n-th delta are combinations tests cannot cover",
 [RR],[("protocol step",RR+":FetchRRDP")],state=[RR+":RRDPSystem.Serial",RR+":RRDPSystem.SessionID"])
p("C16","RRDP content is written only below the cache and for its own repository host",
 "An object received over RRDP is stored only at the path inside the local cache that corresponds to its rsync address, only if that address starts with the rsync host registered for this RRDP source, and never if the address contains a step to a parent directory; in every refused case neither files nor directories are created. An address that is not an rsync address yields an error instead of ending the process.",
 ["inputs"],"every object address, cache location and registered host",
 "path traversal and host confusion depend on odd spellings that a handful of test strings does not cover",
 [O,"sync/lib/rsync.go"],[("host check",O+":ReceiveRRDPFileCallback"),("write",O+":WriteRsyncFileOnDisk"),("URL split","sync/lib/rsync.go:ExtractFilePathFromRsyncURL,ExtractFoldersPathFromRsyncURL")])
p("C17","Route origin validation follows RFC 6811",
 "Over the payloads whose prefix covers the route: the route is valid exactly if one of them has the route's origin AS and a maximum length not below the route's prefix length, invalid if there are covering payloads but none of these matches, and not found if there is none. All covering payloads are returned, whatever their order.",
 ["inputs"],"all sets and orders of payloads and all routes",
 "order dependence and boundary lengths need combinations of several covering payloads",
 ["ov/ov.go"],[("fold","ov/ov.go:Filter"),("lookup","ov/ov.go:Validate"),("index","ov/ov.go:NewOV")])
p("C18","The published list holds each valid payload once, and nothing else",
 "Removing duplicates keeps the first of each distinct payload and all distinct payloads, in order. Removing too-specific prefixes keeps exactly the IPv4 prefixes of length at most 24 and the IPv6 prefixes of length at most 48, in order, and never crashes on an unparsable prefix.",
 ["inputs"],"all payload lists",
 "exactness over all lists: tests see one list; losing or keeping a wrong element at other positions stays unseen",
 [F,O],[("filters",F+":FilterInvalidPrefixLen,FilterDuplicates")])
p("C19","Payloads are served only once stable, and cached replies match the list",
 "When waiting for stability is on and neither the current nor a previous run was stable, the payload and resource endpoints answer 503 and the health endpoint answers 503; otherwise they answer with content. A 304 answer is given only when the client's tag equals the tag derived from the generation time and count of the list being served, and a full answer carries that tag.",
 ["inputs","histories"],"every combination of stability state, flags and request headers",
 "the gate is a small boolean function whose off-corner inputs tests do not cover",
 [O],[("payload endpoint",O+":ServeROAs"),("resources endpoint",O+":ServeResources"),("health endpoint",O+":ServeHealth")])
p("C20","rsync addresses split into host and module without confusion",
 "Splitting an rsync address yields the host part up to the first slash and the module up to the second one, each exactly as written, and an address that does not start with the rsync scheme, or in which no slash follows the host, is refused. The file path and directory of an rsync address are the text after the scheme, and that text up to its last slash.",
 ["inputs"],"all strings",
 "string boundary cases (scheme only, empty host, no slash, other schemes) are unbounded",
 ["sync/lib/utils.go","sync/lib/rsync.go",O],[("host+module","sync/lib/utils.go:ExtractRsyncDomainModule"),("file path","sync/lib/rsync.go:ExtractFilePathFromRsyncURL,ExtractFoldersPathFromRsyncURL"),("host",O+":ExtractRsyncDomain")])
p("C21","A run is declared unchanged only if the set of repositories did not change",
 "Comparing the repositories seen in this run with the earlier ones reports 'changed' exactly when the two sets differ, and remembers every new repository without forgetting an old one.",
 ["inputs","histories"],"all repository sets",
 "set comparison over arbitrary maps and iteration orders",
 [O],[("fixpoint test",O+":MainReduce")])
# not applicable
p("C30","Serving and validating concurrently never shows a torn list",
 "While a validation run replaces its results, every concurrent request sees either the complete previous or the complete new list and statistics.",
 ["schedules"],"all interleavings of the server and the validation loop",
 "needs every interleaving of goroutines",
 [O],[("shared state",O+":ServeROAs,ServeInfo,generateROAList,setROAList")])
p("C31","A crash never leaves RRDP state ahead of the stored files",
 "If the process stops at any point, the saved session and serial of a repository never name a state whose files have not been stored.",
 ["crash_points"],"all crash points during an update",
 "needs a crash between any two file system operations",
 [O],[("state file",O+":saveRRDPInfo,doRRDP"),("object writes",O+":WriteRsyncFileOnDisk")])
p("C32","With reachable repositories the validator eventually becomes stable",
 "If the set of repositories reachable from the trust anchors is finite and unchanging, the validation loop eventually declares a stable state and publishes the list.",
 ["histories"],"all fair runs of the validation loop",
 "liveness over unbounded runs",
 [O],[("loop",O+":validationLoop")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    try: jsonschema.validate(x,sch)
    except Exception as e: print(x["id"],e.message)
    if len(x["title"])>80: print("title",x["id"],len(x["title"]))
print(len(P))
