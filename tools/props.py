"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), level="proof",
      note="", theorems="", na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, state=state, level=level, note=note,
                      theorems=theorems, na=na))


COMMON = ("pyvc executes the current source of every function the theorem reaches, symbolically, on all paths; "
          "z3/cvc5 discharge each obligation; loops by inferred inductive invariants. ")

P("C01", "Every SMI value survives encoding and decoding",
  "Encoding any value of an SMI type (signed and unsigned 32-bit integers, counters, gauges, time ticks, 64-bit "
  "counters, octet strings, IP addresses, opaque values, NULL and object identifiers of two or more "
  "sub-identifiers) starts with the tag octet RFC 2578 gives that type, and decoding the bytes with the same type yields an equal value of the same type that "
  "re-encodes to the same bytes. When other bytes follow, exactly the bytes of the value are consumed and the "
  "rest is returned unchanged. Octet strings longer than 65535 bytes are refused.",
  ["inputs"], "all values of the SMI types, all following bytes, both copying modes",
  "The tests encode a few dozen chosen values; the guarantee is for every 64-bit integer, every octet string and "
  "every sequence of sub-identifiers.",
  ["snmp/smi.py", "snmp/asn1.py", "snmp/ber.py"],
  [("integer content octets", "INTEGER.serialize/deserialize"), ("OID base-128 groups",
    "OBJECT_IDENTIFIER.serialize/deserialize"), ("IP address text", "IpAddress.__init__/construct"),
   ("framing", "ASN1.encode/decode, ber.encode/decode")],
  ["X.encode()", "X.decode()"],
  note=COMMON + "BER framing enters through the contract established by C05; views through C07.")

P("C02", "Variable bindings, PDUs and messages survive encoding and decoding",
  "Encoding and then decoding a variable binding, a list of any number of variable bindings, a PDU of any of the "
  "eight types or an SNMPv1/v2c message gives back an equal object of the same type with every field unchanged "
  "(names, value types, request ID, error status, error index, non-repeaters, max-repetitions, version, community, "
  "order of the bindings), and exactly the bytes that follow are left over. The fields are in the order of RFC 3416 and "
  "each PDU type has its own tag octet. A PDU with an undefined error status, an error "
  "index beyond the bindings or a negative repeat count, and a message whose PDU type is not among those "
  "admitted, are refused with ParseError.",
  ["inputs"], "all object identifiers, values, numbers and orders of bindings, field values and trailing bytes",
  "Fields and bindings interact through nested lengths; a unit test has a handful of literals.",
  ["snmp/pdu.py", "snmp/smi.py", "snmp/message/core.py", "snmp/asn1.py"],
  [("bindings", "VarBind.deserialize, VarBindList.deserialize"), ("PDUs", "PDU.deserialize, BulkPDU.deserialize"),
   ("messages", "Message.deserialize")], ["X.decode(x.encode() + rest, leftovers=True)"],
  note=COMMON + "Uses the contracts proved under C01 (values) and C05 (framing); varbind is proved first and then used as "
  "the contract of one binding in the list, and the list's as a contract in the PDUs. Total encoded sizes below 2**63.")

P("C03", "SNMPv3 messages survive encoding and decoding",
  "Encoding and decoding an SNMPv3 header, scoped PDU, USM security parameters or whole message gives back every field "
  "unchanged (message ID, size, flags, security model, context, any of the eight PDU types, engine ID, boots, time, "
  "user, signature, salt, encrypted or plain PDU), with the fields laid out in the order of RFC 3412 and RFC 3414. The "
  "security parameters, and the signature in them, are found at exactly the place where they are in the message, and "
  "a signature put in place of an equally long placeholder changes nothing else. A negative message ID, a size below "
  "484, an unknown security model, privacy without authentication, negative boots or time, and an inadmissible PDU "
  "type are refused. A decrypted scoped PDU is read correctly whatever padding follows it.",
  ["inputs"], "all field values, sizes, levels, PDU types and variable bindings; all padding",
  "The signature is cut out of and put back into the raw bytes at a computed offset: an offset that is right for the "
  "sample lengths of a test may be wrong for others.",
  ["snmp/message/v3.py", "snmp/security/usm/parameters.py", "snmp/ber.py", "snmp/smi.py"],
  [("header", "HeaderData.deserialize, MessageFlags.construct"), ("scope", "ScopedPDU.deserialize"),
   ("message", "SNMPv3Message.deserialize/findSecurityParameters"),
   ("signature", "UsmSecurityParameters.deserialize/findSignature, subbytes.replace")],
  ["SNMPv3Message.decode()", "UsmSecurityParameters.decode()"],
  note=COMMON + "Uses the contracts proved under C01, C05 and C02 (variable binding lists). Octet strings up to 65535 bytes "
  "(engine ID, user, signature and salt up to 1000).")

P("C04", "Decoding any bytes gives a value or a decoding error",
  "Decoding any byte string as any of the library's types - SMI values, variable bindings and lists of them, PDUs, message headers, "
  "scoped PDUs, security parameters and messages of each version - terminates and either gives an object of that type or raises an error for "
  "invalid incoming messages (IncomingMessageError); no other exception escapes. What is left over is a proper suffix of the input. What is "
  "decoded is within the limits of its type: integers in range, octet strings up to 65535 octets, addresses of four octets, an error "
  "status that exists, an error index that does not exceed the number of bindings, counts of a bulk request, message ID, engine boots and time "
  "that are not negative, a maximum size of 484 or more, and a PDU only of the types asked for. Where the security parameters and the "
  "signature are looked for in a message, they lie in it.",
  ["inputs"], "all byte strings, as a copy or as a view, with and without left-over bytes, all classes",
  "Malformed input comes from the network; the tests try a handful of malformed strings per class.",
  ["snmp/asn1.py", "snmp/smi.py", "snmp/pdu.py", "snmp/message/core.py", "snmp/message/v3.py", "snmp/message/version.py", "snmp/security/usm/parameters.py"],
  [("framing", "ber.decode, by its contract (C05 any_bytes)"), ("values", "deserialize of the primitive types"),
   ("lists", "VarBindList.deserialize"), ("messages", "deserialize of PDUs, messages and their parts")],
  ["decode() of every class"], note=COMMON + "Composed of contracts: ber.decode on any bytes (C05 any_bytes, any_tag), then those "
  "of the classes below, each proved by a theorem here (leaf, varbind, bindings, pdu, scoped). socket.inet_ntoa and inet_aton are assumed.")

P("C05", "BER framing is canonical, exact and strict",
  "A tag or a length that is encoded and decoded again comes back unchanged, whatever bytes follow, and lengths "
  "use the short form below 128 and the fewest octets otherwise. Decoding an encoded frame gives exactly the body "
  "that went in, leaves the following bytes untouched, and refuses the frame when the tag is not the expected one, "
  "when it is truncated at any point, or when bytes follow that were not asked for.",
  ["inputs"], "all tag classes and numbers, all lengths, all bodies, all trailing bytes, all truncations",
  "The tests frame a handful of short bodies; multi-octet lengths and tags, and each truncation point, are an "
  "unbounded family.",
  ["snmp/ber.py"],
  [("tag octets", "Tag.encode/decode"), ("length octets", "encode_length/decode_length"),
   ("frame", "ber.encode/ber.decode")], ["ber.encode()", "ber.decode()"], note=COMMON)

P("C06", "SMI integers enforce their ranges and encode minimally",
  "Each SMI integer type accepts exactly the integers of its range (signed 32-bit; unsigned 32-bit for the counter, "
  "gauge and time-ticks types; unsigned 64-bit) and refuses every other with a value error, or with a parse error "
  "when decoding. The encoding is two's complement in the fewest octets, big-endian. Two integers compare equal "
  "exactly if their tags and numbers are equal.",
  ["inputs"], "all integers; all bodies of one to twelve octets when decoding; all pairs for equality",
  "The tests check boundary values of each type; sign-bit padding is wrong only for particular magnitudes.",
  ["snmp/smi.py", "snmp/asn1.py"],
  [("range check", "BoundedInteger.inRange, INTEGER.bitCount"), ("octets", "INTEGER.serialize/deserialize")],
  ["X(value)", "X.encode()", "X.decode()"], note=COMMON)

P("C07", "A byte view behaves exactly like the slice it stands for",
  "A view built from a byte string (or from another view) with any start and stop, negative or out of range "
  "included, has the length, the truth value, the bytes, the indexing results and errors, the sub-slices and the "
  "iteration of the corresponding slice, and compares equal to exactly the byte strings with that content. Splitting at any "
  "index and advancing agree with slicing, and replacing substitutes exactly the viewed region of the underlying "
  "bytes, leaving the rest and the view as they were.",
  ["inputs"], "all byte strings, all start/stop/index values, nested views",
  "Off-by-one translation errors depend on combinations of negative, clamped and nested indices; tests sample "
  "a few.",
  ["snmp/utils.py"], [("index translation", "subbytes.translate"), ("window", "subbytes.__init__")],
  ["subbytes(...)"], note=COMMON)

P("C09", "Object identifiers: limits, text form, prefixes and order",
  "An object identifier accepts exactly the sequences of at most 128 sub-identifiers, each an unsigned 32-bit "
  "number, with first below 3 and second below 40; it keeps them unchanged. Parsing its text form (with or without a leading dot) gives it "
  "back; extending it gives an identifier that starts with it and whose remainder is the extension. The prefix "
  "test, equality, hash and order agree with those of the sub-identifier sequences.",
  ["inputs"], "all integer sequences, all pairs and triples of identifiers",
  "Tests use a few literal OIDs; limits and orders quantify over all sequences.",
  ["snmp/asn1.py", "snmp/smi.py"],
  [("limits", "OID.__init__, OBJECT_IDENTIFIER.__init__"), ("text", "OBJECT_IDENTIFIER.parse/__str__"),
   ("prefix", "OBJECT_IDENTIFIER.startswith/extend")], ["OID(...)", "OID.parse()", "str(oid)"], note=COMMON)

P("C10", "Generated identifiers cover the whole range, zero last",
  "A number generator for n bits, signed or unsigned, yields only numbers of that n-bit range. Its i-th number is congruent modulo "
  "2^n to i times its first number, which is odd; so every 2^n consecutive calls yield each n-bit number exactly "
  "once, and within a cycle zero comes last.",
  ["inputs", "histories"], "sizes 8, 31, 32 and 64, signed and unsigned, every random step, any number of calls",
  "A full 31- or 32-bit cycle cannot be enumerated in a test, for each of 2^31 random steps.",
  ["snmp/utils.py"], [("arithmetic progression", "NumberGenerator.__init__/__next__")], ["next(generator)"],
  state=[("previous", "the last number", "NumberGenerator")],
  note=COMMON + "The number of calls is unbounded (inductive invariant); the step from the progression to 'each "
  "exactly once' is n applications of the halving lemma.")


P("C11", "SNMPv1/v2c responses are matched with the request they answer",
  "However many requests are outstanding, a request sent by the SNMPv1 or SNMPv2c message processor gets a request ID that is "
  "not zero and differs from those of all outstanding requests, and its message carries the version, the community and the PDU; "
  "preparing the same PDU again yields the identical message and registers nothing new. A response is handed to "
  "exactly the request with its request ID, and only if its community is that of the request; every other response is refused "
  "with IncomingMessageError, as is one whose request has finished or was abandoned, and any other type of PDU is never accepted "
  "as a response.",
  ["inputs", "histories"], "all communities and bindings, any numbers from the generator, any number of other outstanding requests, "
  "responses with any request ID and community before and after the end of the request",
  "IDs collide, wrap or hit zero once in 2**32 requests, and a stale response has to arrive after the end of its request.",
  ["snmp/message/v1.py", "snmp/message/v2c.py", "snmp/message/core.py", "snmp/utils.py"],
  [("allocation", "cache"), ("matching", "prepareDataElements"), ("release", "uncache, CacheEntry")],
  ["processor.prepareOutgoingMessage(pdu, handle, community)", "processor.prepareDataElements(msg)"],
  [("outstanding", "request ID -> community and weak reference to the handle", "SNMPv1MessageProcessor.outstanding")],
  note=COMMON + "NumberGenerator by its contract (any number of the range, C10); messages by theirs (C02). The number of other "
  "requests is arbitrary: one representative stands for them, with an arbitrary set of other IDs.")

P("C12", "An SNMPv3 response is matched only with the request it answers",
  "With any number of requests outstanding, each sent message has its own message ID, between 1 and 2^31-1, and a request "
  "sent again gets a further one. A response is delivered to a request if and only if it carries one of its message IDs, its security name "
  "and its context name, and, unless it is a Report, its engine ID as security engine and as context engine and a "
  "security level at least that of the request; otherwise it is for no request. Responses are accepted until "
  "the request finishes or is abandoned, then none, and the other requests are not affected. Nothing but a Response or a "
  "Report is taken for a response, nor is a message that its security module refuses or that has none. The message handed to "
  "the security module carries the PDU, context, security level, security model and reportable flag that were asked for.",
  ["inputs", "histories"],
  "any number of other requests, all draws of the number generator, all IDs, names, engines, contexts, levels and bindings",
  "Spoofed or misdirected responses are any combination of matching and mismatching fields against any table of "
  "outstanding requests; tests try one mismatch at a time with one request.",
  ["snmp/message/v3.py", "snmp/utils.py"],
  [("cache", "SNMPv3MessageProcessor.cache/uncache/retrieve"), ("matching", "SNMPv3MessageProcessor.prepareDataElements"),
   ("sending", "SNMPv3MessageProcessor.prepareOutgoingMessage")],
  ["SNMPv3MessageProcessor.prepareDataElements()", "SNMPv3MessageProcessor.prepareOutgoingMessage()"],
  state=[("cache", "outstanding requests by message ID", "SNMPv3MessageProcessor")],
  note=COMMON + "NumberGenerator by its contract (any number of the range, C10); messages by theirs (C03). The number of other "
  "requests is arbitrary: one representative stands for them, with an arbitrary set of other IDs. A stand-in security module.")

P("C13", "Incoming SNMPv3 messages are trusted only if authentic",
  "The user-based security module accepts an authenticated message if and only if its engine is registered, its user belongs to "
  "the engine's namespace and supports the level, its signature field has the right length and is exactly the signature the user's key for that engine "
  "gives for the message with that field zeroed, and its boots and time are within the window of the clock that earlier authentic messages have "
  "set. It then carries the user, engine, level and content that were sent (decrypted when the level has privacy). Everything else is refused as an incoming-message error and "
  "moves no clock. Unauthenticated messages pass with their content and level as they are.",
  ["inputs", "histories"], "all users, keys, namespaces, engines, clocks, IDs, contents, signatures",
  "Forgeries are whatever an attacker sends: acceptance must be impossible for every signature but one, every stranger and every stale "
  "clock; tests try a few forged messages.",
  ["snmp/security/usm/implementation.py", "snmp/security/usm/users.py", "snmp/security/usm/parameters.py",
   "snmp/security/usm/timekeeper.py", "snmp/message/v3.py"],
  [("authentication", "UserBasedSecurityModule.processIncoming"), ("signature field", "UsmSecurityParameters.decode"),
   ("window", "TimeKeeper.updateAndVerify"), ("decryption", "PrivProtocol.decrypt")],
  ["UserBasedSecurityModule.processIncoming()"],
  state=[("users", "credentials per namespace and engine", "UserRegistry"), ("clocks", "boots and time per engine", "TimeKeeper")],
  note=COMMON + "Authentication and privacy protocols are stand-ins: arbitrary functions of key and data (the library's own are C16, C17). "
  "Timestamps are mathematical reals. The theorems on histories use an authentic message, one hint or forgery and a second message; "
  "longer histories of the clock are C14.")

P("C14", "Stale and replayed authentic messages are refused",
  "Once an authentic message from an engine has been accounted for, the clock kept for that engine (boots and time) "
  "never runs backwards, whatever authentic messages and unauthenticated hints follow. A message is accepted if and only if it is "
  "newer than that clock (more boots, or the same boots) and its time is at most 150 seconds behind it, with boots "
  "below 2^31-1; newer values are adopted. An accepted message is refused again once 151 seconds have passed. "
  "Unauthenticated hints never move a clock that an authentic message has set, and engines do not influence each other.",
  ["inputs", "histories"], "all engine IDs, boots, times and timestamps; histories of any length",
  "A replay window is a statement about every history of earlier messages; tests use two or three fixed steps.",
  ["snmp/security/usm/timekeeper.py"],
  [("clock update", "EngineTime.update/hint"), ("window", "TimeKeeper.updateAndVerify, EngineTime.computeAge")],
  ["TimeKeeper.updateAndVerify()", "TimeKeeper.getEngineTime()"],
  state=[("table", "the clock of each engine", "TimeKeeper")],
  note=COMMON + "Timestamps are mathematical reals. Histories are loops with inferred invariants, of any length.")

P("C15", "Outgoing SNMPv3 messages are protected as the security level demands",
  "prepareOutgoing() of the user-based security module produces exactly the message RFC 3414 prescribes: the scoped PDU encrypted with the "
  "user's privacy key for the destination engine when the level has privacy, the whole message signed with the user's authentication key "
  "for that engine when the level has authentication (with the signature field zeroed), the engine's boots and time as known at that instant in "
  "authenticated messages and zeros in others. A level the user cannot support, a user outside the namespace of "
  "the engine, or an engine that is not registered is refused with an error and nothing is produced; messages without "
  "authentication or privacy need neither user nor engine.",
  ["inputs", "configurations"], "all users, secrets, namespaces, engines, clocks, levels, IDs, contents",
  "That the plaintext never leaves unencrypted and that the signature covers the bytes that are sent depends on every "
  "combination of user, level, engine and clock; tests compare a few fixed messages.",
  ["snmp/security/usm/implementation.py", "snmp/security/usm/users.py", "snmp/security/usm/credentials.py",
   "snmp/security/usm/parameters.py", "snmp/message/v3.py", "snmp/security/usm/timekeeper.py"],
  [("protection", "UserBasedSecurityModule.prepareOutgoing"), ("keys", "Credentials.localize"), ("clock", "TimeKeeper.getEngineTime")],
  ["UserBasedSecurityModule.prepareOutgoing()"],
  state=[("users", "credentials per namespace and engine", "UserRegistry"), ("clocks", "boots and time per engine", "TimeKeeper")],
  note=COMMON + "Authentication and privacy protocols are stand-ins: arbitrary functions of key and data (the library's own are C16, C17). "
  "Scoped PDUs up to 65000 bytes. Timestamps are mathematical reals.")

P("C16", "Decryption undoes encryption and privacy salts do not repeat",
  "What AES-CFB128 or DES-CBC encrypts, a privacy object with the same key decrypts, given the same boots and (AES) "
  "time and the salt that came with it, to the same plaintext (for DES followed by padding), with either backend. AES "
  "uses the first 16 bytes of the key and the IV boots, time, salt; DES the first 8 bytes and the next 8 exclusive-or "
  "the salt, zero padding, and a salt that starts with the boots. Of any number of messages, each salt is the one "
  "before plus one modulo 2^64 (AES), or its last four bytes modulo 2^32 (DES), so none repeats within a cycle. Short "
  "keys, salts of the wrong length and partial DES blocks are refused.",
  ["inputs", "histories"], "all keys, plaintexts, boots, times, salts; any number of messages; both backends",
  "Whether the right bytes of key, salt and clock reach the cipher, and whether salts repeat after any number of "
  "messages, is not settled by a few recorded ciphertexts.",
  ["snmp/security/usm/priv/openssl/__init__.py", "snmp/security/usm/priv/openssl/aes.py",
   "snmp/security/usm/priv/openssl/des.py", "snmp/security/usm/priv/pycryptodome/aes.py",
   "snmp/security/usm/priv/pycryptodome/des.py"],
  [("IV", "AesCfb128.packIV, DesCbc.computeIV"), ("salt counter", "encrypt"), ("padding", "DesCbc.pad"),
   ("OpenSSL buffers", "Envelope.process")], ["AesCfb128", "DesCbc"],
  note=COMMON + "The ciphers themselves (OpenSSL, pycryptodome) are assumed: length-preserving and invertible; "
  "reads and writes of the C code stay within the buffers passed, under that contract.")


P("C17", "USM keys and signatures are those the standard defines",
  "The key of a non-empty secret is the hash of the first 2^20 bytes of the secret repeated over and over. A "
  "localized key is the hash of key, engine ID and key again, in that order. The signature of a message is the "
  "HMAC, under the key given, truncated to 12 (MD5, SHA-1), 16 (SHA-224), 24 (SHA-256), 32 (SHA-384) and 48 "
  "(SHA-512) bytes; signing again, after other messages too, gives the same signature.",
  ["inputs"], "all non-empty secrets, keys, engine IDs and messages; all six protocols",
  "The tests use a couple of secrets per protocol; whether the repetition is cut correctly depends on the length "
  "of the secret.",
  ["snmp/security/usm/auth.py", "snmp/security/usm/__init__.py"],
  [("key", "HmacAuthProtocol.computeKey"), ("localization", "localize, localizeKey"), ("signature", "sign")],
  ["HmacMd5 ... HmacSha512"],
  note=COMMON + "hashlib and hmac are assumed to be functions of their input. For the key of a secret, the digest is taken to "
  "be the hashed string itself, labelled with the algorithm, so that what was hashed can be examined.")


P("C18", "Users belong to their namespace and engines see exactly their users",
  "Within a namespace a user name stands for one definition: adding it again with different credentials or a "
  "different default security level is refused and changes nothing; the same definition is accepted. The first "
  "user of a namespace is its default until another is explicitly made so. An engine that is assigned to a namespace "
  "yields, for every user of that namespace, added before or after the assignment, the credentials localized to "
  "that engine, and for any other name nothing. It cannot be assigned to another namespace until it has been "
  "released as often as it was assigned; after that it is unknown.",
  ["inputs", "histories"], "all user names, secrets, namespaces and engine IDs; any number of assignments and releases",
  "Assignments, releases and additions interleave freely; tests follow a few scripts.",
  ["snmp/security/usm/users.py", "snmp/security/usm/credentials.py", "snmp/security/usm/implementation.py"],
  [("definition", "NamespaceConfig.addUser"), ("assignment count", "RemoteEngine.assign/release"),
   ("lookup", "UserRegistry.getCredentials")], ["UserRegistry", "UserBasedSecurityModule"],
  state=[("engines", "assigned engines", "UserRegistry"), ("namespaces", "defined users", "UserRegistry")],
  note=COMMON + "The authentication and privacy protocols are arbitrary (uninterpreted functions). Up to three users.")

P("C19", "No datagram stops the listener, and each goes to the processor of its version",
  "Dispatcher.hear() returns normally for every datagram, and whatever the message processor or the request handle raises. A datagram "
  "that is one message is given, unchanged and once, to the processor registered last for its version and to no other; what "
  "it returns is pushed to the handle once. Datagrams of unknown or unregistered versions and those with trailing bytes reach no processor. After "
  "a failure the next message is delivered as usual. sendPdu() sends exactly what the processor has made, once, to the address "
  "of the channel; with an unregistered version or a failing processor it raises and sends nothing. The multiplexor hears each datagram "
  "once, in order, with its own socket and address, until it is stopped.",
  ["inputs", "schedules"], "all datagrams up to 65507 bytes, versions, sets of processors, kinds of failure; up to two datagrams on each of two sockets",
  "The thread that listens must survive every datagram that anyone sends; tests send a handful.",
  ["snmp/dispatcher.py", "snmp/transport/posix/udp.py", "snmp/transport/__init__.py", "snmp/message/version.py"],
  [("routing", "Dispatcher.hear"), ("sending", "Dispatcher.sendPdu, TransportChannel.send"), ("listening", "PosixUdpMultiplexor.listen")],
  ["Dispatcher", "PosixUdpMultiplexor"],
  state=[("processors", "message processor of each version", "Dispatcher")],
  note=COMMON + "Sockets, poll and pipes are stand-ins; processors and handles are stand-ins that accept, refuse or fail. Errors are subclasses of "
  "Exception; a socket error while receiving is not covered.")

P("C20", "SNMPv1/v2c requests are retransmitted on time, answered and ended",
  "A request of an SNMPv1 or SNMPv2c manager is sent at once. Counting periods of its refresh period from that instant, the manager "
  "retransmits the identical datagram at most once in each later period, and whoever waits in wait() is woken in time for the next "
  "retransmission, also that of another request of the manager, and for the expiration; a late wake-up is followed by a retransmission "
  "at once, without changing the later ones. From its response, its timeout or its release on, a request is not sent again. wait() "
  "gives the variable bindings of the response, or raises ErrorResponse with its status if it reports an error, also if it came "
  "before wait() was called; without a response it raises Timeout, not before the timeout has passed. The request uses the community "
  "it was given, or that of the manager, and only a response with it counts. get, getNext, set and getBulk send the PDU of that kind "
  "with the names and values given, and wait exactly when the call, or else the manager, says so.",
  ["inputs", "schedules"], "all timeouts, delays, instants, responses; several periods; up to two requests at once",
  "Retransmission depends on when the waiter wakes and on which requests are open; there is no test of a manager.",
  ["snmp/manager/v1.py", "snmp/manager/v2c.py", "snmp/utils.py", "snmp/dispatcher.py", "snmp/message/v1.py", "snmp/message/v2c.py"],
  [("schedule", "Request.refresh, send"), ("order", "SNMPv1Manager.refresh, sendRequest"), ("result", "Request.wait")],
  ["SNMPv1Manager", "SNMPv2cManager", "Request.wait()"],
  state=[("requests", "open requests by time of their next retransmission", "manager"), ("nextRefresh", "when to send again", "Request")],
  note=COMMON + "Time is a real number (rounding of floats is not covered) and less than 1/64 s passes between two readings of the clock "
  "unless somebody waits; the timeout and the delays are arbitrary. Two wake-ups without a response reach every state of the schedule, "
  "because the first may be arbitrarily late. Refresh periods of 1, 3/4 and 10 s (two requests: 1 and 4 s).")

P("C21", "SNMPv3 requests find, synchronize with, and are answered by their engine",
  "A request to an engine whose ID is known is sent at once (one that needs authentication is held while the first request to the "
  "engine is open and nothing has come from it); "
  "otherwise an empty noAuthNoPriv discovery message is sent, others wait for it, no response answers it, and the report that does has "
  "all of them sent to the engine that reported. Each request is sent with its own PDU, user and level. It is retransmitted at most "
  "once in each of its refresh periods, in time while somebody waits, neither after its end nor after its response, and never "
  "otherwise changed. A report of an unknown engine ID from another engine, or one of a message outside of the time window, has it sent "
  "again at once, to that engine; a further one of the latter kind, about a message sent so far, has no effect. Other reports end the request with "
  "the exception of their kind, at once if they are authenticated, else at the timeout if no response comes. wait() gives the bindings "
  "of the response or raises ErrorResponse, or raises Timeout once the timeout has passed, and then gives back all its messages and "
  "engines. New requests go to the engine that last responded, and once one response was authenticated only such ones change that. "
  "get, getNext, set and getBulk send that kind of PDU with the names, values, user and level given (or the default ones).",
  ["inputs", "schedules"], "all timeouts, delays, instants; up to two messages per request in every order; up to three requests",
  "Depends on which messages arrive for which of the messages sent, when, and in which state the manager is; the tests of the manager sample a few.",
  ["snmp/manager/v3.py", "snmp/utils.py"],
  [("schedule", "Request.refresh, send"), ("order", "SNMPv3UsmManager.refresh, poke, onReport"), ("states", "State subclasses"),
   ("result", "Request.wait, processException"), ("reports", "RequestMessage.push")],
  ["SNMPv3UsmManager", "Request.wait()"],
  state=[("requests", "open requests by time of their next retransmission, and the held ones", "manager"), ("state", "what is known of the engine", "manager"),
         ("synchronized", "which messages were sent before the last report of the time window", "Request")],
  note=COMMON + "The dispatcher and the security module below are stand-ins that record what they are given (their own behaviour: C11 to C19). "
  "Time is a real number (rounding of floats is not covered) and less than 1/64 s passes between two readings of the clock unless "
  "somebody waits. Two wake-ups without a response reach every state of the schedule, because the first may be arbitrarily late. "
  "A response that arrives when the timeout has passed may be lost.")

P("C22", "Security levels are ordered and users configured within them",
  "A security level with privacy but without authentication cannot be made. The levels compare as noAuthNoPriv < "
  "authNoPriv < authPriv with every comparison operator, consistently with equality. Credentials support exactly "
  "the level their protocols allow, a user's default level never exceeds it (a higher one is refused) and equals it "
  "when none is requested, and localized credentials hold an authentication or privacy key exactly when that level "
  "has it.",
  ["inputs"], "all flag values, all pairs of levels, all combinations of protocols and secrets",
  "The combinations of protocols, secrets and levels outnumber the cases in the tests.",
  ["snmp/security/levels.py", "snmp/security/usm/credentials.py", "snmp/security/usm/users.py"],
  [("validity", "SecurityLevel.__init__"), ("order", "SecurityLevel.__lt__/__ge__/__eq__"),
   ("default level", "UserConfig.__init__")], ["SecurityLevel", "UserConfig", "Credentials"], note=COMMON)

P("C23", "UDP addresses are validated and completed",
  "Normalizing a UDP address gives an address of the socket's family and a port from 0 to 65535, and port 0 and the empty address only "
  "where the usage is not a listening one. A valid pair is kept as it is, and normalizing it again changes nothing. A missing "
  "address becomes the family's wildcard address, a missing port the default of the usage (161, 162 or 0). "
  "Everything else is refused: invalid address text or a port out of range with a value error, an address that is "
  "not text with a type error.",
  ["inputs"], "all address texts, all integer ports, all usages, IPv4 and IPv6",
  "The tests check chosen addresses and ports; limits depend on the combination of usage, family and port.",
  ["snmp/transport/udp.py", "snmp/transport/__init__.py"],
  [("normalization", "UdpSocket.normalizeAddress")], ["UdpIPv4Socket.normalizeAddress()",
   "UdpIPv6Socket.normalizeAddress()"], note=COMMON + "socket.inet_pton is assumed (an arbitrary predicate on texts).")


def main():
    import re
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(PROPS, key=lambda p: p["id"]):
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                             "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                             "observe_at": list(p["observe"]), "hook_needed": False}}
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in sorted(PROPS, key=lambda p: p["id"]):
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        c = {"property": p["id"], "quick_cmd": f"python3-vt run.py {p['id']}",
             "thorough_cmd": f"python3-vt run.py {p['id']} thorough",
             "technique": "contract-based deductive verification of the real Python source (pyvc: symbolic "
                          "weakest-precondition execution, inferred loop invariants, z3 and cvc5)",
             "level": p["level"], "level_note": p["note"]}
        if p["theorems"]:
            c["theorems"] = p["theorems"]
        checks.append(c)
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, cvc5'", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: contracts and theorems live in /verif/specs and are checked against the "
                  "source of /repo as it is on every run."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
