import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],
                 **({"state":state} if state else {}),
                 "observe_at":observe or ["HTTP response of S3Service::hyper_call","calls made on the S3Storage implementation"],
                 "hook_needed":None}})
S="src/service.rs"; SIG="src/signature_v4.rs"; FS="src/storages/fs.rs"
p("C01","No storage access without a valid signature",
 "When the server is configured with an authentication provider, no storage operation is performed for a request that lacks a valid AWS Signature V4 made with a registered access key's secret: a request that is unsigned, signed with a wrong or unknown key, or altered after signing in its method, path, query, a signed header or its hashed payload, or by adding an x-amz-* header that the signature does not cover, is answered with an error and has no effect. A deployment without a provider never treats a signed request as authenticated: it refuses it.",
 ["inputs","configurations"],"every request (method, path, query, headers, body), every credential set, every single or combined alteration of a correctly signed request",
 "The tests check a handful of fixed AWS documentation vectors on the signing functions; none drives a tampered request through the service, and forgery resistance quantifies over all alterations.",
 [S,SIG,"src/headers/authorization_v4.rs","src/auth.rs","src/data_structures/ordered_headers.rs"],
 [("header auth / presigned / post auth selection and check",S+": check_signature, check_header_auth"),("canonical request construction",SIG+": create_canonical_request")])
p("C02","Correctly signed requests are accepted whatever their content",
 "A request signed in the Authorization header exactly as AWS Signature V4 for S3 prescribes, with a registered access key, is accepted and executed, for every object key (including keys that need percent-encoding), query string, set of signed headers, region, date and payload mode. The operation executed is the one that the unsigned form of the same request would execute, with the same body bytes.",
 ["inputs"],"all methods, keys over Unicode, query parameter sets, header sets and orders, regions, dates, signed / unsigned / empty payloads",
 "The unit tests sign five fixed ASCII requests; acceptance has to hold for every key and query, in particular those whose canonical encoding differs from the raw text.",
 [S,SIG,"src/headers/authorization_v4.rs","src/headers/amz_date.rs","src/data_structures/ordered_qs.rs"],
 [("canonical URI, query and header encoding",SIG+": create_canonical_request, uri_encode"),("authorization header parser","src/headers/authorization_v4.rs")])
p("C03","Presigned URLs work exactly as issued and stop at expiry",
 "A presigned URL made with a registered key is accepted during its validity window for exactly the method, path, query and signed headers it was issued for, and is refused without any storage operation when any of these, its credential, date, lifetime or signature is changed, an x-amz-* header that is not signed is added, or when its lifetime has elapsed.",
 ["inputs"],"all presignable requests, all alterations of them, all validity windows around the present",
 "One fixed vector is tested at function level; no test checks expiry or an altered URL.",
 [S,SIG],[("presigned URL parsing",SIG+": PresignedUrl::from_query"),("presigned check",S+": check_presigned_url")])
p("C04","Signed chunked uploads deliver exactly the original payload",
 "A body sent with the signed aws-chunked encoding is delivered to storage as exactly the original payload bytes, for every payload, every division into chunks and every way the network fragments the encoded body.",
 ["inputs","schedules"],"all payloads, chunk sizes, fragmentations of the encoded byte stream (down to single bytes and empty fragments)",
 "Two fixed streams are tested; framing bugs depend on where fragments fall relative to chunk headers, data and CRLFs.",
 ["src/streams/aws_chunked_stream.rs",S,SIG],[("chunk reader","src/streams/aws_chunked_stream.rs: read_meta_bytes, read_data")])
p("C05","A damaged signed chunked upload is never stored as complete",
 "If a signed aws-chunked body is altered, reordered, has chunks removed, duplicated or inserted, or ends before its signed terminating chunk, the storage never sees the body as successfully completed, and every byte it was given before the failure is a prefix of a payload whose chunk signatures verified. The client is not told that the upload succeeded.",
 ["inputs","fault_sequences"],"all single and combined damages (bit flips in data, signature or size, chunk removal/duplication/reorder/splice, truncation at every byte offset) under every fragmentation",
 "One fixed tampered stream is tested; truncation points and chunk-level splices are not.",
 ["src/streams/aws_chunked_stream.rs",S],[("per-chunk signature chain","src/streams/aws_chunked_stream.rs: check_signature"),("end-of-stream handling","src/streams/aws_chunked_stream.rs: new")])
p("C06","Browser form uploads: signed policy only, and exact content",
 "A multipart/form-data POST to a bucket stores exactly the file content and the object attributes given by its fields, under the key given by the form, for every content, every boundary and every network fragmentation, and only if its policy carries a valid signature of a registered key. A form that is malformed, ends early, or has an altered policy or signature, stores no complete object.",
 ["inputs","schedules","fault_sequences"],"all forms (field order, names, values, file bytes incl. near-boundary sequences), boundaries, fragmentations, truncations, policy/signature alterations",
 "Parser tests use two fixed forms and fixed fragment sizes; nothing tests a POST through the service.",
 ["src/streams/multipart.rs",S,"src/ops/put_object.rs"],[("form parser and file stream","src/streams/multipart.rs"),("policy signature check",S+": check_post_signature")])
p("C07","Browser form uploads obey the signed policy document",
 "A form upload whose signed policy has expired, or whose bucket, key, fields or content length do not satisfy the policy's conditions, is refused and stores nothing; one that satisfies them is accepted.",
 ["inputs"],"all policies over expiration, exact-match, starts-with and content-length-range conditions, with satisfying and violating forms",
 "No test exercises a policy at all.",
 [S,"src/ops/put_object.rs"],[("policy evaluation",S+": check_post_signature")])
p("C08","Each request runs exactly the S3 operation it names, or none",
 "A request that names a supported S3 operation causes exactly one call of that operation on the storage and of no other; a request that names an operation or sub-resource the server does not support is refused without any storage call, and in particular never falls through to a different (possibly destructive) operation.",
 ["inputs"],"all combinations of method, path kind (service, bucket, object), sub-resource and operation-selecting query parameters and headers",
 "Tests issue a few plain GET/PUT/LIST requests; the routing table is a product of many predicates whose gaps and overlaps no test samples.",
 ["src/ops.rs","src/ops/*.rs",S],[("handler predicates","src/ops/*.rs: is_match"),("dispatch order","src/ops.rs: setup_handlers")])
p("C09","Operations receive exactly the parameters of the request",
 "The storage operation receives exactly the bucket, key, body, user metadata, query parameters, headers and XML body content of the HTTP request, each in its own field, and nothing else; parameters that are absent are absent, and malformed typed parameters are refused with a client error rather than dropped or misread.",
 ["inputs"],"all 16 operations, all subsets of their parameters, values over the legal character ranges, percent-encoded paths and queries, more headers than any inline buffer",
 "No test checks any field beyond bucket and key; a swapped or dropped field shows only for the request that sets it.",
 ["src/ops/*.rs","src/data_structures/ordered_headers.rs","src/data_structures/ordered_qs.rs","src/utils/body.rs"],[("per-operation extraction","src/ops/*.rs: extract"),("sorted header and query lookup","src/data_structures/")])
p("C10","Responses carry exactly the storage's results",
 "A successful response carries exactly the result the storage returned: every result field in the header or XML element that the S3 API defines for it, in well-formed and correctly escaped XML, the body bytes unchanged, and the status the API defines; absent fields produce nothing.",
 ["inputs"],"all 16 operations, all subsets of result fields, text over XML-representable Unicode, lists of any length, bodies in any fragmentation",
 "Tests look at one or two fields of three operations.",
 ["src/ops/*.rs","src/utils/response.rs","src/utils/xml.rs","src/output.rs"],[("per-operation serialisation","src/ops/*.rs: try_into_response"),("XML writer","src/utils/xml.rs")])
p("C11","Failures are reported faithfully and never as success",
 "An error returned by a storage operation reaches the client as an XML error document with exactly that error's code and message and the HTTP status S3 assigns to the code; the status of an error response is never a success status, and every error code round-trips through its textual form. A failure of the key store that is asked for a secret key is likewise answered with an error, and the request is not executed.",
 ["inputs"],"all error codes, all message texts, all operations including operation-specific errors, all failures of the key store",
 "Tests check two codes.",
 ["src/errors.rs","src/output.rs","src/ops/*.rs"],[("code table","src/errors.rs: as_status_code"),("error conversion","src/output.rs")])
p("C12","Equivalent requests are treated identically",
 "Requests that differ only in the order of headers or query parameters, header-name case, equivalent percent-encoding of path or query, the Host header's presence in an absolute URI, or the fragmentation of the body have the same effect and the same response.",
 ["inputs","schedules"],"all requests of C08/C09 and all compositions of these transformations, signed and unsigned",
 "A metamorphic relation over pairs of requests; no test compares two requests.",
 [S,"src/data_structures/ordered_headers.rs","src/data_structures/ordered_qs.rs","src/path.rs"],[("ordered lookup","src/data_structures/"),("path decoding",S+": decode_uri_path")])
p("C13","Paths are split and validated by the S3 naming rules",
 "A request path denotes the service, a bucket, or an object whose key is everything after the bucket's slash, unchanged; it is accepted exactly when the bucket name satisfies the S3 naming rules the server documents (length, characters, first and last character, not an IP address, no reserved prefix) and the key is at most 1024 bytes, and otherwise refused with the matching error.",
 ["inputs"],"all strings near the naming rules' boundaries and all keys around the length limit",
 "Unit tests list a few valid and invalid names.",
 ["src/path.rs",S],[("path parser","src/path.rs: try_from_path, check_bucket_name, check_key")])
p("C14","Every request gets a well-formed HTTP response",
 "Whatever bytes a client sends as method, path, query, headers and body, and however the body fails or is fragmented, the service answers with an HTTP response: it does not panic, abort the connection's task, hang, or return a service-level failure, and an error response is a well-formed XML error document.",
 ["inputs","fault_sequences"],"all syntactically valid HTTP requests including hostile ones, with and without authentication, body errors at any point",
 "Robustness quantifies over all inputs; tests only send well-formed ones.",
 [S,"src/ops/*.rs","src/streams/*.rs","src/headers/*.rs"],[("error handling on every parse step",S+": handle, hyper_call")])
p("C15","Protocol header values are parsed exactly by their grammar",
 "The parsers for Range, x-amz-date, Authorization, credential scope, x-amz-copy-source and x-amz-content-sha256 accept exactly the values of their documented grammar and yield exactly the components written there; everything else is refused.",
 ["inputs"],"all strings of each grammar and near-misses produced by mutation",
 "Unit tests have one to six strings per parser.",
 ["src/headers/range.rs","src/headers/amz_date.rs","src/headers/authorization_v4.rs","src/headers/amz_copy_source.rs","src/headers/amz_content_sha256.rs"],[("nom / regex parsers","src/headers/*.rs")],["public parser functions s3_server::headers::*"])
FSO=["HTTP responses of S3Service over FileSystem in a scratch root"]
FSS=[{"name":"object files","meaning":"one file per object under root/bucket/key","where":FS},{"name":"metadata and part files","meaning":"hidden files in the root","where":FS}]
p("C16","Reads return the latest successfully written content",
 "On the file-system storage, after any history of operations a GET of a key returns exactly the bytes of the last successful write (put, copy, form upload or completed multipart upload) to that bucket and key, with the right length, and 'no such key' if there is none or it was deleted since; operations on other keys or buckets, and operations that reported failure, change nothing.",
 ["histories","inputs"],"all histories of bucket, put, copy, delete, multi-delete and multipart operations over nested, Unicode and similar keys and contents of size 0 to several MiB",
 "Tests perform one put or one get on a fresh root; interference arises only over histories.",
 [FS],[("object path resolution",FS+": get_object_path"),("write paths",FS+": put_object, copy_object, complete_multipart_upload")],FSO,FSS)
p("C17","User metadata always belongs to the current object",
 "On the file-system storage, GET and HEAD return exactly the user metadata supplied with the write that created the current object (for a copy, the source's metadata): none is lost, and none survives from an earlier object of the same name, whether it was overwritten, deleted, or its bucket was deleted and recreated.",
 ["histories","inputs"],"all histories of writes with and without metadata, overwrites, deletes, copies, multipart completion and bucket re-creation; keys up to the maximum length",
 "No test writes metadata twice.",
 [FS,"src/ops/put_object.rs"],[("metadata side files",FS+": get_metadata_path, save_metadata, load_metadata")],FSO,FSS)
p("C18","Listings show exactly the existing objects",
 "On the file-system storage, listing a bucket (either list version) returns each existing object of that bucket whose key starts with the requested prefix exactly once, with its full key and exact size, in ascending key order, and nothing else; the key count equals the number listed, and listing a bucket that does not exist is an error.",
 ["histories","inputs"],"all histories of writes and deletes, all prefixes (empty, partial segment, ending in slash, matching nothing, full key)",
 "Tests list one object once.",
 [FS,"src/ops/list_objects.rs","src/ops/list_objects_v2.rs"],[("directory walk",FS+": list_objects, list_objects_v2")],FSO,FSS)
p("C19","Buckets exist exactly between creation and deletion",
 "On the file-system storage, a bucket is visible to list-buckets, head-bucket, location and object operations exactly from its successful creation to its successful deletion; creating an existing bucket fails and changes nothing, no operation creates a bucket implicitly, list-buckets gives the time of its creation, deleting one bucket affects no other, and operations in a missing bucket report that it (or, for a read, the object) does not exist.",
 ["histories"],"all histories over several buckets of create, delete, recreate, head, list, location and object operations",
 "Tests create one bucket once.",
 [FS,"src/ops/create_bucket.rs","src/ops/delete_bucket.rs"],[("bucket directories",FS+": create_bucket, delete_bucket, list_buckets")],FSO,FSS)
p("C20","Copy produces an independent identical object",
 "On the file-system storage, a successful copy makes the destination equal to the source (content and metadata) and leaves the source unchanged, for every source and destination including nested keys, keys needing percent-encoding, other buckets and the object itself; afterwards the two are independent. Copying a missing source fails and leaves the destination as it was.",
 ["histories","inputs"],"all pairs of source and destination over buckets and keys, all copy-source spellings, in any history",
 "One plain copy is tested.",
 [FS,"src/headers/amz_copy_source.rs","src/ops/copy_object.rs"],[("copy",FS+": copy_object")],FSO,FSS)
p("C21","Deletes remove exactly the named objects and are idempotent",
 "On the file-system storage, a delete or multi-delete removes exactly the named objects and nothing else; naming an object that does not exist succeeds without effect, every named key is accounted for in the multi-delete result, and a key that is only a prefix of other keys never deletes them.",
 ["histories","inputs"],"all histories, all key lists with existing, missing, duplicate, nested and prefix keys",
 "Tests have no delete through the service with more than one key.",
 [FS,"src/ops/delete_object.rs","src/ops/delete_objects.rs"],[("delete",FS+": delete_object, delete_objects")],FSO,FSS)
p("C22","Multipart uploads assemble exactly the listed parts",
 "On the file-system storage, completing a multipart upload makes the object exactly the concatenation, in ascending part order, of the latest content uploaded for each listed part of that upload; re-uploaded parts replace earlier ones, concurrent uploads never mix, and until completion the key keeps its previous content.",
 ["histories","inputs"],"all interleaved histories of several uploads, with parts of any size uploaded in any order, re-uploaded, and listed completely or not",
 "One two-part upload at most is exercised by tests.",
 [FS,"src/ops/upload_part.rs","src/ops/complete_multipart_upload.rs","src/ops/create_multipart_upload.rs"],[("part files and assembly",FS+": upload_part, complete_multipart_upload")],FSO,FSS)
p("C23","Range reads return exactly the requested bytes",
 "On the file-system storage, a GET with a satisfiable byte range returns exactly the bytes of that range of the object (clamped to its end), with matching length, partial-content status and content-range; an unsatisfiable range is refused as such, and a malformed one with a client error.",
 ["inputs"],"all object sizes around buffer boundaries and all first-last, open-ended and suffix ranges including empty, overlong and huge values",
 "No test reads a range.",
 [FS,"src/headers/range.rs","src/data_structures/bytes_stream.rs","src/ops/get_object.rs"],[("range arithmetic and limited stream",FS+": get_object")],FSO)
p("C24","HEAD, GET and ETags agree with the stored bytes",
 "On the file-system storage, HEAD succeeds exactly when GET does and reports the same length, metadata and modification time, which, like that in listings and in the answer to a copy, is the time of the write that created the object; and every ETag reported for an object or part (on put, part upload, completion, copy and get) is the quoted MD5 of exactly the bytes it describes.",
 ["histories","inputs"],"all histories and contents of size 0 to several MiB around hashing-buffer boundaries",
 "Tests compare no ETag and no HEAD/GET pair.",
 [FS,"src/ops/head_object.rs","src/ops/get_object.rs"],[("md5 of streamed and stored bytes",FS+": get_md5_sum")],FSO)
p("C25","Requests cannot reach outside their bucket",
 "On the file-system storage, no key, upload id, copy source, multi-delete entry or form key, however spelled or encoded, lets a request read, create, change, delete or reveal anything other than objects of the bucket it names: files outside the storage root, other buckets and the server's internal files are untouched and unread.",
 ["inputs"],"all path spellings with dot segments, absolute parts, doubled and encoded slashes, internal file names and bucket names, in every field that names an object or upload",
 "No test uses a hostile key.",
 [FS,"src/path.rs"],[("virtual-root path resolution",FS+": get_object_path, get_metadata_path, upload_part")],FSO+["snapshot of the scratch tree before and after"])
p("C26","An upload that fails leaves the previous object intact",
 "On the file-system storage, if an upload (put, form or part) does not complete — its body errors, is truncated or fails verification, or the client disconnects at any point — the object or part under that name is still exactly what it was before (or still absent), no partial content is ever readable or listed, and the client is not told it succeeded.",
 ["fault_sequences","inputs"],"every fault point in the body stream, cancellation at every poll, over new and existing objects with and without metadata",
 "No test injects a fault.",
 [FS,"src/streams/aws_chunked_stream.rs"],[("upload write path",FS+": put_object, upload_part")],FSO)
p("C27","A failed multipart completion loses nothing",
 "On the file-system storage, when completing a multipart upload fails (missing, misordered, duplicate or absent parts, malformed request, or a target that cannot be written), the existing object under that key is unchanged, the uploaded parts are still available, and a later correct completion succeeds.",
 ["histories","fault_sequences"],"all invalid part lists over all upload states, followed by retries",
 "No test has a failing completion.",
 [FS,"src/ops/complete_multipart_upload.rs"],[("completion",FS+": complete_multipart_upload")],FSO)
p("C28","Concurrent readers and writers see whole objects only",
 "On the file-system storage, when writes to a key overlap with each other and with reads in any interleaving of their body chunks, every read that succeeds returns the complete content of one single write (or of the object that existed before), consistent with its reported length and ETag, and after all writes finish the object is exactly the content of one of the successful writes, with the metadata of that same write.",
 ["schedules"],"all interleavings, at body-chunk granularity, of several puts, copies, completions, deletes and gets on the same keys",
 "Tests are sequential.",
 [FS],[("write and read paths",FS+": put_object, get_object")],FSO)
p("C29","Acknowledged writes survive a server crash or restart",
 "On the file-system storage, everything a client was told had been written (objects, metadata, buckets, uploaded parts) or deleted is still so after the server process is killed at any moment and a new one is started on the same root, and the content of an object whose write was in progress at that moment is either the old or the new one, never part of it.",
 ["crash_points","histories"],"all histories with restarts between operations and process kills at generated moments during operations",
 "No test restarts the server.",
 [FS,"src/bin/s3-server.rs"],[("all state lives in files under the root",FS)],["HTTP responses of the real server binary over loopback, killed and restarted"])
p("C30","The server binary enforces its command-line configuration",
 "The server program serves the given root on the given address, requires signatures exactly when an access key and secret key are given, refuses to start when only one of the two or a missing root is given, and speaks the same protocol over TCP as the service does in process.",
 ["configurations","inputs"],"all option combinations, credentials over printable characters, requests over real connections (keep-alive, chunked transfer, HEAD, expect-continue)",
 "No test starts the binary.",
 ["src/bin/s3-server.rs",S],[("argument handling and server setup","src/bin/s3-server.rs")],["HTTP over loopback to the built binary"])
p("C31","Bodies are passed on as they arrive",
 "Upload bodies reach the storage and download bodies reach the client piece by piece as they arrive, not after the whole has been collected: everything received so far is available on the other side before more is needed (for signed chunks, up to the last complete chunk; for forms, up to a possible boundary; a payload that is signed as one hash may be collected first). A body that fails midway ends in an error on the other side, never as if it were complete.",
 ["inputs","schedules"],"all bodies and fragmentations of plain, presigned, unsigned-payload, chunked and form uploads and of downloads, failures at every point",
 "Tests hand over complete bodies; whether anything is held back shows only when a body is fed piece by piece and the request is observed in between.",
 [S,"src/streams/aws_chunked_stream.rs","src/streams/multipart.rs","src/ops/put_object.rs","src/ops/upload_part.rs","src/ops/get_object.rs"],
 [("chunk reader","src/streams/aws_chunked_stream.rs: new"),("form file stream","src/streams/multipart.rs: FileStream"),("body hand-over after authentication",S+": check_header_auth")],
 ["body stream as the storage sees it, polled between fragments","response body polled between the storage's pieces"])
p("C32","Concurrent requests do not influence each other",
 "Requests that one service handles at the same time are each authenticated, executed and answered exactly as if they were alone, whatever the others are, however their bodies, key look-ups and storage calls interleave, and whichever of them are abandoned midway.",
 ["schedules","inputs"],"all sets of up to five requests (correctly signed, altered, unsigned, forms), all interleavings of body fragments, key look-ups and storage calls, all abandonments",
 "Tests send one request at a time to a fresh service; leaks of one request's identity, body or answer into another need overlapping requests.",
 [S,"src/auth.rs","src/storage.rs"],[("one service shared by all requests",S+": S3Service, SharedS3Service"),("request context",S+": ReqContext")])
p("C33","Secret keys are never disclosed",
 "No response, log event of any level, Debug text of the service or its authentication provider, call made on the storage, or output of the program contains a registered secret key, a signing key derived from it, or a correct signature that the client did not send itself, whatever the request.",
 ["inputs"],"all requests (signed in the header or query, altered, unsigned, forms, signed chunked bodies), all operations, the program's options and log level",
 "Tests look at the value they expect, not at everything else that is written out; a leak shows only in the log or error text of some particular (for example failing) request.",
 ["src/auth.rs",S,SIG,"src/bin/s3-server.rs"],[("simple provider","src/auth.rs: SimpleAuth"),("signature checks",S+": check_signature"),("log of the options","src/bin/s3-server.rs")],
 ["HTTP response of S3Service::hyper_call","tracing events","Debug of SimpleAuth and S3Service","stdout and stderr of s3-server"])
p("C34","A failing file system is reported, damages nothing, and can be retried",
 "When a file-system call that the file-system storage makes for an operation fails (opening, reading, writing, creating, renaming, removing or listing), the operation is answered with a server error (or its body ends in an error) unless it has taken its full effect and the answer is complete and right; every object is afterwards whole, either as before or as the operation would have left it; and the same operation succeeds once the failure is gone. Reads and writes that transfer less than asked for change nothing.",
 ["fault_sequences","inputs"],"all operations on all states, every call of the operation as the failing one, once or from there on, all error numbers, all transfer limits",
 "Tests run on a file system that never fails; an ignored error result is invisible until a disk is full.",
 [FS,"src/data_structures/bytes_stream.rs"],[("atomic replacement of objects",FS+": commit_object"),("removal",FS+": remove_object"),("uploads",FS+": upload_part, complete_multipart_upload")],
 ["HTTP responses of a service on a real directory","contents of the storage afterwards, through the service"])
p("C35","Nothing is left behind",
 "Once every object has been deleted and every open multipart upload has been completed and its object deleted, the storage directory is exactly as it was when its buckets were new, and once the buckets are deleted exactly as it was before, and no file below it is open, whatever requests came before: uploads that failed or ended early, requests given up by their client at any moment, refused copies and completions.",
 ["crash_points","fault_sequences","inputs"],"all histories of operations with failing, short and abandoned requests, all points of abandonment, all timings of the file system",
 "Tests look at what a request should leave, not at what it should not; leftovers of failed and abandoned requests are invisible through S3 and fill the disk.",
 [FS],[("temporary files",FS+": TempFile, create_temp_file"),("removal of metadata, parts and directories",FS+": remove_object, remove_upload, delete_bucket")],
 ["directory tree below the storage root","open files of the process"])
p("C36","Overlapping requests take effect one at a time",
 "On the file-system storage, overlapping requests are answered, and leave the storage, as if for each key and each bucket every request (of a copy: its read and its write) had taken effect at one moment between its start and its end: a read that starts after a write was acknowledged gives that write or a later one, an object that exists throughout is never reported missing, and parts sent at the same time are all kept. A listing that overlaps with other requests succeeds, shows every object that nobody changes meanwhile exactly once, and nothing with a size it never had. No request fails with an internal error because of what others do at the same time.",
 ["schedules"],"all interleavings of the file-system calls of puts, multipart uploads, copies, deletes, reads, listings and bucket operations",
 "Tests send one request at a time.",
 [FS],[("lock and rename",FS+": commit_object, open_object, remove_object, delete_bucket"),("unlocked walks",FS+": list_objects, list_objects_v2, list_buckets, create_bucket")],
 ["HTTP responses of S3Service over FileSystem in a scratch root"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
