"""Edits that keep the behaviour: the checks must stay quiet.

    python3 tools/quiet.py [id...]      run the checks concerned on a copy of /repo with each edit

Not part of any check."""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = {}


def edit(id, checks, file, *pairs):
    EDITS[id] = (checks.split(), file, pairs)


edit("length-loop", "C04 C05", "ber.py", ('''        for i in range(n):
            try:
                byte = data.dereference()
            except IndexError as err:
                raise ParseError("Incomplete length") from err
            else:
                data = data.advance()

            length <<= 8
            length |= byte
''', '''        while n > 0:
            if not data:
                raise ParseError("Incomplete length")

            length = length * 256 + data[0]
            data = data.advance()
            n -= 1
'''))
edit("length-from-bytes", "C04 C05", "ber.py", ('''        length = 0
        for i in range(n):
            try:
                byte = data.dereference()
            except IndexError as err:
                raise ParseError("Incomplete length") from err
            else:
                data = data.advance()

            length <<= 8
            length |= byte
''', '''        octets, data = data.split(n)
        if len(octets) < n:
            raise ParseError("Incomplete length")

        length = int.from_bytes(octets[:], "big")
'''))
edit("length-to-bytes", "C05", "ber.py", ('''    arr = bytearray()
    while length:
        arr.append(length & 0xff)
        length >>= 8

    if len(arr) > 0x7f:
        raise EncodeError("Length too large for definite-length encoding")

    arr.append(0x80 | len(arr))
    return bytes(reversed(arr))
''', '''    n = (length.bit_length() + 7) // 8
    if n > 0x7f:
        raise EncodeError("Length too large for definite-length encoding")

    return bytes([0x80 | n]) + length.to_bytes(n, "big")
'''))
edit("take-byte", "C04 C05", "ber.py", ('''        try:
            byte = data.dereference()
        except IndexError as err:
            raise ParseError("Missing tag") from err
        else:
            data = data.advance()

        class_      = (byte & 0xc0) >> 6
        constructed = (byte & 0x20) != 0
''', '''        byte, data = take(data, "Missing tag")
        constructed = bool(byte & 0x20)
        class_      = byte >> 6
'''), ('''                try:
                    byte = data.dereference()
                except IndexError as err:
                    raise ParseError("Incomplete tag") from err
                else:
                    data = data.advance()

                number <<= 7
                number |= byte & 0x7f
''', '''                byte, data = take(data, "Incomplete tag")
                number = (number << 7) | (byte & 0x7f)
'''), ('''def decode_length(data''', '''def take(data: subbytes, errmsg: str) -> Tuple[int, subbytes]:
    try:
        byte = data.dereference()
    except IndexError as err:
        raise ParseError(errmsg) from err

    return byte, data.advance()

def decode_length(data'''))
edit("frame-order", "C04 C05", "ber.py", ('''    if len(data) < length:
        raise ParseError("Incomplete value")
    elif not leftovers and tail:
        raise ParseError("Trailing bytes")

    body = data[:] if copy else data

    if expected is None:
        if leftovers:
            return tag, body, tail
        else:
            return tag, body
    else:
        if leftovers:
            return body, tail
        else:
            return body
''', '''    if tail and not leftovers:
        raise ParseError("Trailing bytes")

    if length > len(data):
        raise ParseError("Incomplete value")

    result = [data[:] if copy else data]
    if expected is None:
        result.insert(0, tag)

    if leftovers:
        result.append(tail)

    return tuple(result) if len(result) > 1 else result[0]
'''))
edit("view-translate", "C07 C05", "utils.py", ('''        if index < 0:
            index += self.stop
            if index < self.start:
                if clamp:
                    return self.start
                else:
                    return len(self.data)
            else:
                return index
        else:
            index += self.start
            if index >= self.stop:
                if clamp:
                    return self.stop
                else:
                    return len(self.data)
            else:
                return index
''', '''        position = index + (self.start if index >= 0 else self.stop)
        if self.start <= position < self.stop:
            return position

        if not clamp:
            return len(self.data)

        return max(self.start, min(position, self.stop))
'''))
edit("view-iter", "C07 C01 C04", "utils.py", ('''        for index in range(self.start, self.stop):
            yield self.data[index]
''', '''        index = self.start
        while index < self.stop:
            yield self.data[index]
            index += 1
'''), ('''            for left, right in zip(self, other):
                if left != right:
                    return False
''', '''            if any(left != right for left, right in zip(self, other)):
                return False
'''))
edit("integer-range", "C06 C01 C04", "smi.py", ('''        if value < 0 and not cls.SIGNED:
            return False

        nbits = cls.bitCount(value)
        allowable = cls.BITS - 1 if cls.SIGNED else cls.BITS
        return nbits <= allowable
''', '''        if cls.SIGNED:
            limit = 1 << (cls.BITS - 1)
            return -limit <= value < limit
        else:
            return 0 <= value < (1 << cls.BITS)
'''))
edit("integer-bits", "C06 C01", "asn1.py", ('''        if value < 0:
            value = -value - 1

        return value.bit_length()
''', '''        return (value if value >= 0 else ~value).bit_length()
'''), ('''        nbytes = (self.bitCount(self.value) // 8) + 1
''', '''        nbytes = (self.bitCount(self.value) + 8) >> 3
'''))
edit("oid-decode", "C01 C04", "asn1.py", ('''        value = 0
        for byte in stream:
            value |= byte & 0x7f
            if byte & 0x80:
                value <<= 7
            else:
                oid.append(value)
                value = 0
''', '''        value = 0
        for byte in stream:
            more = bool(byte & 0x80)
            value += byte % 128
            if not more:
                oid.append(value)
                value = 0
            else:
                value *= 128
'''))
edit("oid-encode", "C01", "asn1.py", ('''            flag = 0
            tmp = bytearray()

            while num:
                tmp.append((num & 0x7f) | flag)
                flag = 0x80
                num >>= 7

            tmp.reverse()
            bytearr.extend(tmp)
''', '''            tmp = bytearray([num & 0x7f])
            num >>= 7

            while num > 0:
                tmp.append((num & 0x7f) | 0x80)
                num >>= 7

            bytearr.extend(reversed(tmp))
'''))
edit("oid-limits", "C09 C01 C04", "smi.py", ('''        if any(map(lambda x: x.bit_length() > 32, subidentifiers)):
            raise ValueError("Sub-identifiers are limited to 32-bits unsigned")
''', '''        for subidentifier in subidentifiers:
            if subidentifier.bit_length() > 32:
                raise ValueError("Sub-identifiers are limited to 32-bits unsigned")
'''))
edit("oid-prefix", "C09", "asn1.py", ('''        return self.subidentifiers[:len(prefix)] == prefix[:]
''', '''        n = len(prefix)
        return len(self) >= n and all(a == b for a, b in zip(self, prefix))
'''))
edit("constructed", "C02 C03 C01", "asn1.py", ('''        return b"".join([obj.encode() for obj in self])
''', '''        encoding = b""
        for obj in self:
            encoding += obj.encode()

        return encoding
'''), ('''        for left, right in zip(self, other):
            if left != right:
                return False

        return True
''', '''        return all(left == right for left, right in zip(self, other))
'''))
edit("bindings", "C02 C04", "pdu.py", ('''        objects = []

        while data:
            var, data = cast(
                Tuple[VarBind, subbytes],
                VarBind.decode(data, leftovers=True),
            )

            objects.append(var)

        return cls(*objects)
''', '''        variables: List[VarBind] = list()

        while len(data) > 0:
            variable, data = VarBind.decode(data, leftovers=True)
            variables += [variable]

        return cls(*variables)
'''))
edit("pdu-fields", "C02 C04", "pdu.py", ('''        _requestID, data = cast(
            Tuple[Integer, subbytes],
            Integer.decode(data, leftovers=True),
        )

        _errorStatus, data = cast(
            Tuple[Integer, subbytes],
            Integer.decode(data, leftovers=True),
        )

        _errorIndex, data = cast(
            Tuple[Integer, subbytes],
            Integer.decode(data, leftovers=True),
        )

        variableBindings = VarBindList.decode(data)

        requestID = _requestID.value
        errorStatus = _errorStatus.value
        errorIndex = _errorIndex.value
''', '''        fields = []
        for _ in range(3):
            field, data = Integer.decode(data, leftovers=True)
            fields.append(field.value)

        requestID, errorStatus, errorIndex = fields
        variableBindings = VarBindList.decode(data)
'''))
edit("message-type", "C02 C03 C04 C11", "message/core.py", ('''        identifier, _ = Tag.decode(subbytes(ptr))

        if types is None:
            types = dict()

        try:
            pduType = types[identifier]
        except KeyError as err:
            raise ParseError(f"Invalid PDU type: {identifier}") from err
''', '''        identifier = Tag.decode(subbytes(ptr))[0]
        pduType = (types or {}).get(identifier)
        if pduType is None:
            raise ParseError(f"Invalid PDU type: {identifier}")
'''))
edit("numbers", "C10", "utils.py", ('''        self.previous += self.step

        if self.previous > self.wrap:
            self.previous -= self.range

        return self.previous
''', '''        candidate = self.previous + self.step
        self.previous = candidate if candidate <= self.wrap else candidate - self.range
        return self.previous
'''))
edit("v2c-cache", "C11", "message/v2c.py", ('''        retry = 0
        while retry < 10:
            with self.cacheLock:
                requestID = next(self.generator)
                if requestID == 0:
                    self.generator = self.newGenerator()
                elif requestID not in self.outstanding:
                    self.outstanding[requestID] = entry
                    return requestID

            retry += 1
''', '''        for _ in range(10):
            with self.cacheLock:
                requestID = next(self.generator)
                if requestID != 0:
                    if requestID in self.outstanding:
                        continue

                    self.outstanding[requestID] = entry
                    return requestID

                self.generator = self.newGenerator()
'''), ('''            try:
                del self.outstanding[requestID]
            except KeyError:
                pass
''', '''            self.outstanding.pop(requestID, None)
'''))
edit("v2c-match", "C11", "message/v2c.py", ('''        if isinstance(message.pdu, ResponsePDU):
            try:
                entry = self.retrieve(message.pdu.requestID)
            except KeyError as err:
                errmsg = f"Unknown requestID: {message.pdu.requestID}"
                raise ResponseMismatch(errmsg) from err

            handle = entry.handle()
            if handle is None:
                self.uncache(message.pdu.requestID)
                raise LateResponse("Handle has already been released")

            if entry.community != message.community:
                raise ResponseMismatch(f"Community does not match request")
        else:
            raise UnsupportedFeature("Received a non-response PDU type")

        return message, handle
''', '''        pdu = message.pdu
        if not isinstance(pdu, ResponsePDU):
            raise UnsupportedFeature("Received a non-response PDU type")

        return message, self.findHandle(message, pdu.requestID)

    def findHandle(self, message, requestID):
        try:
            entry = self.retrieve(requestID)
        except KeyError as err:
            raise ResponseMismatch(f"Unknown requestID: {requestID}") from err

        handle = entry.handle()
        if handle is None:
            self.uncache(requestID)
            raise LateResponse("Handle has already been released")
        elif message.community == entry.community:
            return handle
        else:
            raise ResponseMismatch(f"Community does not match request")
'''))
edit("v3-match", "C12", "message/v3.py", ('''            report = isinstance(message.scopedPDU.pdu, Internal)
            if (not report
            and message.header.flags.securityLevel < entry.securityLevel):
                raise ResponseMismatch.byField("Security Level")

            if not report and entry.engineID != message.securityEngineID:
                raise ResponseMismatch.byField("Security Engine ID")

            if entry.securityName != message.securityName:
                raise ResponseMismatch.byField("Security Name")

            if (not report
            and entry.engineID != message.scopedPDU.contextEngineID):
                raise ResponseMismatch.byField("Context Engine ID")

            if entry.context != message.scopedPDU.contextName:
                raise ResponseMismatch.byField("Context Name")
''', '''            if entry.securityName != message.securityName:
                raise ResponseMismatch.byField("Security Name")

            if entry.context != message.scopedPDU.contextName:
                raise ResponseMismatch.byField("Context Name")

            if not isinstance(message.scopedPDU.pdu, Internal):
                if entry.engineID != message.securityEngineID:
                    raise ResponseMismatch.byField("Security Engine ID")

                if entry.engineID != message.scopedPDU.contextEngineID:
                    raise ResponseMismatch.byField("Context Engine ID")

                if not message.header.flags.securityLevel >= entry.securityLevel:
                    raise ResponseMismatch.byField("Security Level")
'''))
edit("usm-incoming", "C13", "security/usm/implementation.py", ('''        padding = user.auth.msgAuthenticationParameters
        if len(securityParameters.signature) != len(padding):
            raise WrongDigest("Invalid signature length")

        assert securityParameters.signatureIndex is not None
        start = securityParameters.signatureIndex
        stop = start + len(padding)

        assert securityParameters.wholeMsg is not None
        signature = subbytes(securityParameters.wholeMsg, start, stop)
        wholeMsg = signature.replace(padding)

        if user.auth.sign(wholeMsg) != securityParameters.signature:
            raise WrongDigest("Invalid signature")
''', '''        self.verifySignature(user.auth, securityParameters)
'''), ('''    def processIncoming(self,
''', '''    @staticmethod
    def verifySignature(auth, params) -> None:
        padding = auth.msgAuthenticationParameters
        n = len(padding)
        if n != len(params.signature):
            raise WrongDigest("Invalid signature length")

        i = params.signatureIndex
        wholeMsg = params.wholeMsg[:i] + padding + params.wholeMsg[i+n:]
        if params.signature != auth.sign(wholeMsg):
            raise WrongDigest("Invalid signature")

    def processIncoming(self,
'''))
edit("usm-outgoing", "C15", "security/usm/implementation.py", ('''            snmpEngineBoots, snmpEngineTime = engineTime
            msgAuthenticationParameters = user.auth.msgAuthenticationParameters
            msgPrivacyParameters = b''

            if message.header.flags.privFlag:
                if user.priv is None:
                    userName = securityName.decode()
                    errmsg = f"Privacy is disabled for user \\"{userName}\\""
                    raise InvalidSecurityLevel(errmsg)
''', '''            if message.header.flags.privFlag and user.priv is None:
                userName = securityName.decode()
                errmsg = f"Privacy is disabled for user \\"{userName}\\""
                raise InvalidSecurityLevel(errmsg)

            msgPrivacyParameters = b''
            snmpEngineBoots, snmpEngineTime = engineTime
            msgAuthenticationParameters = user.auth.msgAuthenticationParameters

            if message.header.flags.privFlag:
                assert user.priv is not None
'''))
edit("clock", "C14 C13", "security/usm/timekeeper.py", ('''        if self.authenticated:
            if engineBoots == self.snmpEngineBoots:
                if engineTime > self.snmpEngineTime(timestamp):
                    self.setEngineTime(engineTime, timestamp)
            elif engineBoots > self.snmpEngineBoots:
                self.snmpEngineBoots = engineBoots
                self.setEngineTime(engineTime, timestamp)
        else:
            self.snmpEngineBoots = engineBoots
            self.setEngineTime(engineTime, timestamp)
            self.authenticated = True
''', '''        newer = (engineBoots > self.snmpEngineBoots
            or (engineBoots == self.snmpEngineBoots
            and engineTime > self.snmpEngineTime(timestamp)))

        if newer or not self.authenticated:
            self.snmpEngineBoots = engineBoots
            self.setEngineTime(engineTime, timestamp)

        self.authenticated = True
'''))
edit("key-loop", "C17", "security/usm/auth.py", ('''        for i in range(repeat):
            context.update(secret)
''', '''        while repeat > 0:
            context.update(secret)
            repeat -= 1
'''))
edit("key-whole", "C17", "security/usm/auth.py", ('''        context = cls.ALGORITHM()
        for i in range(repeat):
            context.update(secret)

        context.update(secret[:truncate])
        return context.digest()
''', '''        return cls.ALGORITHM(secret * repeat + secret[:truncate]).digest()
'''), ('''        context = cls.ALGORITHM()
        context.update(key)
        context.update(engineID)
        context.update(key)
        return context.digest()
''', '''        return cls.ALGORITHM(b"".join((key, engineID, key))).digest()
'''))
edit("users", "C18", "security/usm/users.py", ('''        match = False
        if namespace == self.namespace:
            match = True
            self.count += 1

        return match
''', '''        if namespace != self.namespace:
            return False

        self.count += 1
        return True
'''), ('''        for engineID, engine in self.engines.items():
            if engine.namespace == namespace:
                engine.addUser(engineID, userName, credentials)
''', '''        matches = [(i, e) for i, e in self.engines.items() if e.namespace == namespace]
        for engineID, engine in matches:
            engine.addUser(engineID, userName, credentials)
'''), ('''        for userName, userConfig in (config if config is not None else []):
            self.addUser(engineID, userName, userConfig.credentials)
''', '''        if config is not None:
            self.users = {name: user.credentials.localize(engineID) for name, user in config}
'''))
edit("dispatcher", "C19", "dispatcher.py", ('''        try:
            try:
                msgVersion = VersionOnlyMessage.decode(data).version
            except ParseError:
                return

            with self.lock:
                try:
                    mp = self.msgProcessors[msgVersion]
                except KeyError:
                    return

            try:
                message, handle = mp.prepareDataElements(data)
                handle.push(message)
            except IncomingMessageError:
                return

        except AssertionError:
            pass
        except Exception:
            pass
''', '''        try:
            msgVersion = VersionOnlyMessage.decode(data).version

            with self.lock:
                mp = self.msgProcessors.get(msgVersion)

            if mp is not None:
                message, handle = mp.prepareDataElements(data)
                handle.push(message)
        except Exception:
            pass
'''))
edit("v2c-refresh", "C20", "manager/v2c.py", ('''        while self.requests:
            with self.lock:
                reference = self.requests[0]
                request = reference()

                if request is None:
                    wait = None
                else:
                    wait = request.refresh()

                if wait is None:
                    heapq.heappop(self.requests)
                    continue
                elif wait > 0.0:
                    return wait
                else:
                    heapq.heapreplace(self.requests, reference)

        return None
''', '''        while len(self.requests) > 0:
            with self.lock:
                reference = self.requests[0]
                request = reference()
                wait = request.refresh() if request is not None else None

                if wait is not None and wait > 0.0:
                    return wait

                heapq.heappop(self.requests)
                if wait is not None:
                    heapq.heappush(self.requests, reference)

        return None
'''))
edit("v2c-wait", "C20", "manager/v2c.py", ('''        if self.event.is_set():
            assert self.response is not None
            pdu = cast(ResponsePDU, self.response.pdu)

        self.close()
        if pdu is None:
            raise Timeout()
        else:
            if pdu.errorStatus:
                raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
            else:
                return pdu.variableBindings
''', '''        answered = self.event.is_set()
        self.close()
        if not answered:
            raise Timeout()

        pdu = self.response.pdu
        if not pdu.errorStatus:
            return pdu.variableBindings

        raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
'''))
edit("des-iv", "C16", "security/usm/priv/openssl/des.py", ('''        return bytes(a ^ b for a, b in zip(self.preIV, salt))
''', '''        iv = bytearray()
        for i in range(len(salt)):
            iv.append(self.preIV[i] ^ salt[i])

        return bytes(iv)
'''), ('''        n = self.BLOCKLEN - (len(data) % self.BLOCKLEN)
        return data + bytes(n)
''', '''        blocks = len(data) // self.BLOCKLEN + 1
        return data.ljust(blocks * self.BLOCKLEN, b"\\0")
'''))
edit("aes-salt", "C16", "security/usm/priv/openssl/aes.py", ('''        self.salt = (self.salt + 1) % self.SALTWRAP

''', '''        self.salt += 1
        if self.salt == self.SALTWRAP:
            self.salt = 0

'''), ('''        return b''.join((
            engineBoots.to_bytes(self.INTSIZE, self.BYTEORDER),
            engineTime .to_bytes(self.INTSIZE, self.BYTEORDER),
            salt
        ))
''', '''        clock = engineBoots << (8 * self.INTSIZE) | engineTime
        return clock.to_bytes(2 * self.INTSIZE, self.BYTEORDER) + salt
'''))
edit("envelope", "C16", "security/usm/priv/openssl/__init__.py", ('''        length = datalen + blocklen - (datalen % blocklen)
        return ffi.new(f"unsigned char[]", length)
''', '''        return ffi.new("unsigned char[]", datalen + blocklen)
'''))
edit("levels", "C22", "security/levels.py", ('''        if self.auth:
            return other.priv and not self.priv
        else:
            return other.auth

    def __ge__(self, other: "SecurityLevel") -> bool:
        return not self < other
''', '''        return self.rank < other.rank

    def __ge__(self, other: "SecurityLevel") -> bool:
        return self.rank >= other.rank

    @property
    def rank(self) -> int:
        return int(self.auth) + int(self.priv)
'''))
edit("credentials", "C22 C18", "security/usm/credentials.py", ('''        if authProtocol is None:
            self.maxSecurityLevel = noAuthNoPriv
        else:
            if privProtocol is None:
                self.maxSecurityLevel = authNoPriv
            else:
                self.maxSecurityLevel = authPriv

                self.privProtocol = privProtocol
                self.privKey = authProtocol.computeKey(privSecret or secret)

            self.authProtocol = authProtocol
            self.authKey = authProtocol.computeKey(authSecret or secret)
''', '''        self.maxSecurityLevel = noAuthNoPriv
        if authProtocol is None:
            return

        self.maxSecurityLevel = authNoPriv
        self.authProtocol = authProtocol
        self.authKey = authProtocol.computeKey(authSecret or secret)

        if privProtocol is not None:
            self.maxSecurityLevel = authPriv
            self.privProtocol = privProtocol
            self.privKey = authProtocol.computeKey(privSecret or secret)
'''))
edit("udp", "C23", "transport/udp.py", ('''        if isinstance(address, tuple):
            addr, port = address
        else:
            if address is None:
                addr = cls.DOMAIN.default_address
            else:
                addr = address

            if usage is None:
                port = 0
            else:
                port = cls.DEFAULT_PORT[usage]

        permissive = usage not in (
            AddressUsage.LISTENER,
            AddressUsage.TRAP_LISTENER,
        )
''', '''        permissive = usage is None or usage == AddressUsage.SENDER

        if isinstance(address, tuple):
            addr, port = address
        else:
            addr = address if address is not None else cls.DOMAIN.default_address
            port = cls.DEFAULT_PORT.get(usage, 0)
'''), ('''        if port < 0 or port > 0xffff or (port == 0 and not permissive):
''', '''        lowest = 0 if permissive else 1
        if not lowest <= port <= 0xffff:
'''))
edit("multiplexor", "C19", "transport/posix/udp.py", ('''                try:
                    sock = self.sockets[fd]
                except KeyError:
                    if fd == self.r:
                        os.read(fd, 1)
                        done = True
                else:
                    addr, data = sock.receive(self.recvSize)
                    listener.hear(sock, addr, data)
''', '''                if fd in self.sockets:
                    self.deliver(self.sockets[fd], listener)
                elif fd == self.r:
                    os.read(fd, 1)
                    done = True
'''), ('''    def stop(self) -> None:
''', '''    def deliver(self, sock, listener) -> None:
        sender, datagram = sock.receive(self.recvSize)
        listener.hear(sock, sender, datagram)

    def stop(self) -> None:
'''))
edit("v3-header", "C03 C04", "message/v3.py", ('''        if msgID.value < 0:
            raise ParseError("msgID may not be less than 0")
        elif msgMaxSize.value < 484:
            raise ParseError("msgMaxSize may not be less than 484")
        elif msgSecurityModel.value < 1:
            raise ParseError("msgSecurityModel may not be less than 1")
''', '''        for name, field, lowest in (
            ("msgID", msgID, 0),
            ("msgMaxSize", msgMaxSize, 484),
            ("msgSecurityModel", msgSecurityModel, 1),
        ):
            if field.value < lowest:
                raise ParseError(f"{name} may not be less than {lowest}")
'''))
edit("v3-parameters", "C03 C04", "message/v3.py", ('''        _, ptr = decode(ptr, Integer.TAG,       leftovers=True, copy=False)
        _, ptr = decode(ptr, Sequence.TAG,      leftovers=True, copy=False)
        ptr, _ = decode(ptr, OctetString.TAG,   leftovers=True, copy=False)

        return ptr
''', '''        for tag in (Integer.TAG, Sequence.TAG):
            _, ptr = decode(ptr, tag, leftovers=True, copy=False)

        parameters, _ = decode(ptr, OctetString.TAG, leftovers=True, copy=False)
        return parameters
'''))
edit("v3-body", "C03 C04", "message/v3.py", ('''        if self.header.flags.privFlag:
            try:
                assert self.encryptedPDU is not None
            except AssertionError as err:
                errmsg = "encryptedPDU is required when privFlag is True"
                raise SNMPLibraryBug(errmsg) from err

            yield self.encryptedPDU
        else:
            try:
                assert self.scopedPDU is not None
            except AssertionError as err:
                errmsg = "scopedPDU is required when privFlag is False"
                raise SNMPLibraryBug(errmsg) from err

            yield self.scopedPDU
''', '''        priv = self.header.flags.privFlag
        body = self.encryptedPDU if priv else self.scopedPDU

        if body is None:
            field = "encryptedPDU" if priv else "scopedPDU"
            raise SNMPLibraryBug(f"{field} is required when privFlag is {priv}")

        yield body
'''))
edit("v3-cache", "C12", "message/v3.py", ('''        retry = 0
        while retry < 10:
            with self.cacheLock:
                msgID = next(self.generator)
                if msgID == 0:
                    self.generator = self.newGenerator()
                elif msgID not in self.outstanding:
                    self.outstanding[msgID] = entry
                    return msgID

            retry += 1

        raise CacheError("Failed to allocate message ID")
''', '''        for _ in range(10):
            with self.cacheLock:
                msgID = next(self.generator)
                if msgID == 0:
                    self.generator = self.newGenerator()
                    continue

                if msgID in self.outstanding:
                    continue

                self.outstanding[msgID] = entry
                return msgID

        raise CacheError("Failed to allocate message ID")
'''), ('''            try:
                del self.outstanding[msgID]
            except KeyError:
                pass
''', '''            self.outstanding.pop(msgID, None)
'''))
edit("v3-outgoing", "C12", "message/v3.py", ('''        reportable = isinstance(pdu, Confirmed)

        if reportable:
            entry = CacheEntry(
                engineID,
                contextName,
                handle,
                securityName,
                securityModel,
                securityLevel)

            msgID = self.cache(entry)
            handle.addCallback(self.uncache, msgID)
        else:
            # This feature is not yet implemented
            msgID = next(self.generator)

        flags = MessageFlags(securityLevel, reportable)
        header = HeaderData(msgID, self.msgMaxSize, flags, securityModel)
        scopedPDU = ScopedPDU(pdu, engineID, contextName=contextName)
        message = SNMPv3Message(header, scopedPDU)

        return securityModule.prepareOutgoing(message, engineID, securityName)
''', '''        scopedPDU = ScopedPDU(pdu, engineID, contextName)
        reportable = isinstance(pdu, Confirmed)

        if not reportable:
            # This feature is not yet implemented
            msgID = next(self.generator)
        else:
            msgID = self.cache(CacheEntry(
                engineID=engineID,
                contextName=contextName,
                handle=handle,
                securityName=securityName,
                securityModel=securityModel,
                securityLevel=securityLevel,
            ))
            handle.addCallback(self.uncache, msgID)

        header = HeaderData(
            msgID,
            self.msgMaxSize,
            MessageFlags(securityLevel, reportable),
            securityModel,
        )

        return securityModule.prepareOutgoing(
            SNMPv3Message(header, scopedPDU),
            engineID,
            securityName,
        )
'''))
edit("v3-push", "C21", "manager/v3.py", ('''        if isinstance(pdu, ReportPDU):
            securityLevel = response.header.flags.securityLevel
            varbind = pdu.variableBindings[0]

            oid = varbind.name
            if oid == usmStatsUnknownEngineIDsInstance:
                self.request.processUnknownEngineID(response.securityEngineID)
            elif oid == usmStatsNotInTimeWindowsInstance:
                if not self.synchronized:
                    engineID = response.securityEngineID
                    self.request.processNotInTimeWindow(engineID)
            else:
                exception: UnhandledReport

                try:
                    exc_type = self.USM_EXCEPTION_TYPES[oid]
                except KeyError:
                    exception = UnrecognizedReport(varbind)
                else:
                    exception = exc_type(response, varbind)

                auth = response.header.flags.authFlag
                self.request.processException(exception, auth)
        else:
            self.request.processResponse(cast(ResponsePDU, response))
''', '''        if not isinstance(pdu, ReportPDU):
            self.request.processResponse(response)
            return

        varbind = pdu.variableBindings[0]
        engineID = response.securityEngineID
        if varbind.name == usmStatsUnknownEngineIDsInstance:
            self.request.processUnknownEngineID(engineID)
        elif varbind.name == usmStatsNotInTimeWindowsInstance:
            if not self.synchronized:
                self.request.processNotInTimeWindow(engineID)
        else:
            self.request.processException(
                self.makeException(response, varbind),
                response.header.flags.authFlag,
            )

    def makeException(self, response, varbind):
        cls = self.USM_EXCEPTION_TYPES.get(varbind.name)
        if cls is None:
            return UnrecognizedReport(varbind)

        return cls(response, varbind)
'''))
edit("v3-refresh", "C21", "manager/v3.py", ('''        timeToNextRefresh = self.nextRefresh - now

        if timeToNextRefresh <= 0.0:
            if self.expiration <= now:
                return None

            # Calculating it like this mitigates over-delay
            periodsElapsed = math.floor(-timeToNextRefresh / self.period) + 1
            self.nextRefresh += periodsElapsed * self.period
            self.reallySend()
            return 0.0
        else:
            return timeToNextRefresh
''', '''        remaining = self.nextRefresh - now

        if remaining > 0.0:
            return remaining

        if now >= self.expiration:
            return None

        # Calculating it like this mitigates over-delay
        missed = math.floor(-remaining / self.period)
        self.nextRefresh = self.nextRefresh + (missed + 1) * self.period
        self.reallySend()
        return 0.0
'''))
edit("v3-manager-refresh", "C21", "manager/v3.py", ('''        active = True
        while active:
            with self.activeLock:
                if self.active:
                    reference = self.active[0]
                    request = reference()

                    if request is None:
                        wait = None
                    else:
                        wait = request.refresh()

                    if wait is None:
                        heapq.heappop(self.active)
                        continue
                    elif wait > 0.0:
                        return wait
                    else:
                        heapq.heapreplace(self.active, reference)
                else:
                    active = False

            if not active:
                active = self.poke()

        return 0.0
''', '''        while True:
            with self.activeLock:
                while self.active:
                    reference = self.active[0]
                    request = reference()
                    wait = None if request is None else request.refresh()

                    if wait is None:
                        heapq.heappop(self.active)
                    elif wait > 0.0:
                        return wait
                    else:
                        heapq.heapreplace(self.active, reference)

            if not self.poke():
                return 0.0
'''))
edit("v3-wait", "C21", "manager/v3.py", ('''            if self.event.is_set() and self.response is not None:
                assert self.response.scopedPDU is not None
                pdu = cast(ResponsePDU, self.response.scopedPDU.pdu)
                if pdu.errorStatus:
                    raise ErrorResponse(
                        pdu.errorStatus,
                        pdu.errorIndex,
                        self.pdu,
                    )
                else:
                    return pdu.variableBindings
            else:
                if self.exception is not None:
                    raise self.exception
                else:
                    raise Timeout()
''', '''            if not self.event.is_set() or self.response is None:
                raise self.exception or Timeout()

            pdu = self.response.scopedPDU.pdu
            if not pdu.errorStatus:
                return pdu.variableBindings

            raise ErrorResponse(pdu.errorStatus, pdu.errorIndex, self.pdu)
'''))
edit("v3-states", "C21", "manager/v3.py", ('''        if self.manager.engineID == engineID:
            self.manager.nextState = RequireAuthentication(self)
            return True
        else:
            return False

    def onResponse(self, engineID: bytes, auth: bool) -> bool:
        if auth or self.manager.engineID == engineID:
            self.manager.nextState = RequireAuthentication(self)
            return True
        else:
            return False
''', '''        return self.confirm(self.manager.engineID == engineID)

    def onResponse(self, engineID: bytes, auth: bool) -> bool:
        return self.confirm(auth or self.manager.engineID == engineID)

    def confirm(self, confirmed: bool) -> bool:
        if confirmed:
            self.manager.nextState = RequireAuthentication(self)

        return confirmed
'''))
edit("v3-poke", "C21", "manager/v3.py", ('''            unsent = self.unsent
            self.unsent = deque()
            while unsent:
                reference = unsent.pop()
                request = reference()

                if request is not None:
                    if self.state.onRequest(request.securityLevel.auth):
                        with self.activeLock:
                            request.send(self.engineID)
                            heapq.heappush(self.active, reference)
                            active = True

                        self.updateState()
                    else:
                        self.unsent.appendleft(reference)
''', '''            unsent, self.unsent = self.unsent, deque()
            while unsent:
                reference = unsent.pop()
                request = reference()

                if request is None:
                    continue

                if not self.state.onRequest(request.securityLevel.auth):
                    self.unsent.appendleft(reference)
                    continue

                with self.activeLock:
                    request.send(self.engineID)
                    heapq.heappush(self.active, reference)

                active = True
                self.updateState()
'''))
edit("v3-activate", "C21", "manager/v3.py", ('''                    if req is not None:
                        with self.activeLock:
                            req.send(engineID)
                            heapq.heappush(self.active, reference)
''', '''                    if req is not None:
                        self.activate(req, reference, engineID)
'''), ('''            if self.state.onRequest(securityLevel.auth):
                with self.activeLock:
                    request.send(self.engineID)
                    heapq.heappush(self.active, reference)

                self.updateState()
''', '''            if self.state.onRequest(securityLevel.auth):
                self.activate(request, reference, self.engineID)
                self.updateState()
'''), ('''    def updateState(self) -> None:
''', '''    def activate(self, request, reference, engineID) -> None:
        with self.activeLock:
            request.send(engineID)
            heapq.heappush(self.active, reference)

    def updateState(self) -> None:
'''))
edit("v2c-send", "C20", "manager/v2c.py", ('''        if wait is None:
            wait = self.autowait
''', '''        wait = self.autowait if wait is None else wait
'''))


def main(ids):
    results = []
    for id in ids or EDITS:
        checks, file, pairs = EDITS[id]
        top = tempfile.mkdtemp(prefix="quiet")
        try:
            shutil.copytree("/repo", top + "/repo", ignore=shutil.ignore_patterns(".git"))
            path = f"{top}/repo/snmp/{file}"
            text = open(path).read()
            for old, new in pairs:
                assert text.count(old) >= 1, (id, old)
                text = text.replace(old, new)
            open(path, "w").write(text)
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-c", "/dev/null", "--rootdir=" + top + "/repo",
                                "-p", "no:cacheprovider", "--import-mode=importlib", "-o", "python_files=*.py", "--ignore=test/__main__.py",
                                "test"], env=dict(os.environ, OPENSSL_CONF="/opt/vp/openssl-legacy.cnf"), cwd=top + "/repo", stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True) if os.environ.get("TESTS") else None
            if t is not None and t.returncode:
                print(id, "TESTS FAIL", t.stdout[-300:])
            for check in checks if os.environ.get("TESTS") != "only" else ():
                p = subprocess.run(["python3-vt", "run.py", check], cwd=HERE, text=True, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=top + "/repo"))
                note = "" if p.returncode == 0 else p.stdout[-600:]
                bounded = [line for line in p.stdout.splitlines() if "bounded" in line.lower()]
                print(id, check, "quiet" if p.returncode == 0 else f"ALARM {p.returncode}", *bounded[:4], note, flush=True)
        finally:
            shutil.rmtree(top)


if __name__ == "__main__":
    main(sys.argv[1:])
