# Behaviour-preserving edits, in batches; tools/quiet.py applies one batch to a scratch copy and runs every check.
B = "bip38/bip38.py"
W = "bip38/wif.py"
B58 = "bip38/libs/base58.py"
R = "bip38/libs/ripemd160.py"
U = "bip38/utils.py"
C = "bip38/crypto.py"
A = "bip38/p2pkh_address.py"
PT = "bip38/secp256k1/point.py"
PB = "bip38/secp256k1/public_key.py"
PV = "bip38/secp256k1/private_key.py"

BATCHES = {}

# ---- helpers extracted
BATCHES["a"] = [
    (B58, '''    for (i, c) in enumerate(data[::-1]):
        val += (256 ** i) * c
    return val
''', '''    for c in data:
        val = val * 256 + c
    return val
'''),
    (B58, '''    enc = ""
    val = string_to_int(data)
    while val >= len(alphabet):
        val, mod = divmod(val, len(alphabet))
        enc = alphabet[mod] + enc
    if val:
        enc = alphabet[val] + enc
''', '''    digits = []
    val = string_to_int(data)
    base = len(alphabet)
    while val:
        val, mod = divmod(val, base)
        digits.append(alphabet[mod])
    enc = "".join(reversed(digits))
'''),
    (B58, '''def check_encode(raw, alphabet=__base58_alphabet):
    chk = sha256(sha256(raw).digest()).digest()[:4]
    return encode(raw + chk, alphabet)
''', '''def _checksum(raw):
    return sha256(sha256(raw).digest()).digest()[:4]


def check_encode(raw, alphabet=__base58_alphabet):
    return encode(raw + _checksum(raw), alphabet)
'''),
    (B58, '''    raw, chk = dec[:-4], dec[-4:]
    if chk != sha256(sha256(raw).digest()).digest()[:4]:
        raise ValueError("base58 decoding checksum error")
    else:
        return raw
''', '''    raw, chk = dec[:-4], dec[-4:]
    if chk == _checksum(raw):
        return raw
    raise ValueError("base58 decoding checksum error")
'''),
    (B, '''

class BIP38:
    """
''', '''

def _xor(first: bytes, second: bytes) -> bytes:
    return integer_to_bytes(bytes_to_integer(first) ^ bytes_to_integer(second), len(first))


def _stretch(passphrase: str, salt: bytes, length: int = 64) -> bytes:
    return scrypt.hash(unicodedata.normalize("NFC", passphrase), salt, 16384, 8, 8, length)


class BIP38:
    """
'''),
    (B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        derived_half_1, derived_half_2 = key[0:32], key[32:64]

        aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
        encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
        ))
        encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
        ))

        encrypted_private_key: bytes = (
            integer_to_bytes(
                NO_EC_MULTIPLIED_PRIVATE_KEY_PREFIX
            ) + flag + address_hash + encrypted_half_1 + encrypted_half_2
        )
        return ensure_string(encode(
            encrypted_private_key + get_checksum(encrypted_private_key)
        ))
''', '''        key: bytes = _stretch(passphrase, address_hash)
        derived_half_1, derived_half_2 = key[:32], key[32:]

        raw_key: bytes = private_key.raw()
        aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
        blocks: List[bytes] = []
        for start in (0, 16):
            blocks.append(aes.encrypt(_xor(raw_key[start:start + 16], derived_half_1[start:start + 16])))

        return ensure_string(check_encode(
            integer_to_bytes(NO_EC_MULTIPLIED_PRIVATE_KEY_PREFIX) + flag + address_hash + b"".join(blocks)
        ))
'''),
    (B, '''        derived_half_1, derived_half_2, key = scrypt_hash[:16], scrypt_hash[16:32], scrypt_hash[32:]

        aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
        encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(seed_b[:16]) ^ bytes_to_integer(derived_half_1), 16
        ))
        encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(encrypted_half_1[8:] + seed_b[16:]) ^ bytes_to_integer(derived_half_2), 16
        ))
''', '''        key = scrypt_hash[32:]
        derived_half_1, derived_half_2 = scrypt_hash[:16], scrypt_hash[16:32]

        aes: AESModeOfOperationECB = AESModeOfOperationECB(key)
        encrypted_half_1: bytes = aes.encrypt(_xor(seed_b[:16], derived_half_1))
        encrypted_half_2: bytes = aes.encrypt(_xor(encrypted_half_1[8:] + seed_b[16:], derived_half_2))
'''),
    (A, '''        expected_length: int = 20 + len(address_prefix)
        if len(address_decode) != expected_length:
            raise AddressError(f"Invalid length (expected: {expected_length}, got: {len(address_decode)})")

        prefix_got: bytes = address_decode[:len(address_prefix)]
''', '''        prefix_length: int = len(address_prefix)
        expected_length: int = prefix_length + 20
        if not len(address_decode) == expected_length:
            raise AddressError(f"Invalid length (expected: {expected_length}, got: {len(address_decode)})")

        prefix_got: bytes = address_decode[:prefix_length]
'''),
    (W, '''    wif, wif_compressed = encode_wif(
        private_key=private_key, wif_prefix=get_wif_prefix(cryptocurrency, network)
    )
    return wif if wif_type == "wif" else wif_compressed
''', '''    prefix: int = get_wif_prefix(cryptocurrency, network)
    encoded: Tuple[str, str] = encode_wif(private_key=private_key, wif_prefix=prefix)
    return encoded[WIF_TYPES.index(wif_type)]
'''),
    (R, '''    for b in range(len(data) >> 6):
        args = list(state) + [data[64*b:64*(b+1)]]
        state = compress(*args)
    # Construct''', '''    offset = 0
    while offset + 64 <= len(data):
        state = compress(*state, data[offset:offset + 64])
        offset += 64
    # Construct'''),
    (U, '''    tmp = bytearray(data)
    tmp.reverse()
    return bytes(tmp)
''', '''    return data[::-1]
'''),
]

# ---- statements reordered, early returns, conditions inverted
BATCHES["b"] = [
    (W, '''    raw: bytes = decode(wif)
    if not raw.startswith(integer_to_bytes(wif_prefix)):
        raise WIFError(f"Invalid Wallet Import Format (WIF)")

    prefix_length: int = len(integer_to_bytes(wif_prefix))
    prefix_got: bytes = raw[:prefix_length]
    if integer_to_bytes(wif_prefix) != prefix_got:
        raise WIFError("Invalid WIF prefix", expected=prefix_length, got=prefix_got)

    raw_without_prefix: bytes = raw[prefix_length:]
    checksum: bytes = raw_without_prefix[-1 * 4:]
    private_key: bytes = raw_without_prefix[:-1 * 4]
    wif_type: str = "wif"

    if len(private_key) not in [33, 32]:
        raise WIFError(f"Invalid Wallet Import Format (WIF)")
    elif len(private_key) == 33:
        if not private_key.endswith(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)):
            raise WIFError(f"Invalid Wallet Import Format (WIF)")
        private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
        wif_type = "wif-compressed"
    if get_checksum(raw[:-1 * 4]) != checksum:
        raise WIFError("Invalid Wallet Import Format (WIF) checksum")

    return private_key, wif_type, checksum
''', '''    raw: bytes = decode(wif)
    prefix: bytes = integer_to_bytes(wif_prefix)
    payload, checksum = raw[:-4], raw[-4:]
    if get_checksum(payload) != checksum:
        raise WIFError("Invalid Wallet Import Format (WIF) checksum")
    if not payload.startswith(prefix):
        raise WIFError("Invalid Wallet Import Format (WIF)")

    body: bytes = payload[len(prefix):]
    if len(body) == 32:
        return body, "wif", checksum
    if len(body) == 33 and body[-1] == COMPRESSED_PRIVATE_KEY_PREFIX:
        return body[:32], "wif-compressed", checksum
    raise WIFError("Invalid Wallet Import Format (WIF)")
'''),
    (B, '''        encrypted_wif_decode: bytes = decode(encrypted_wif)
        if len(encrypted_wif_decode) != 43:
            raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
        if get_checksum(encrypted_wif_decode[:-4]) != encrypted_wif_decode[-4:]:
            raise WIFError("Invalid encrypted WIF checksum")

        prefix: bytes = encrypted_wif_decode[:2]
        flag: bytes = encrypted_wif_decode[2:3]
        address_hash: bytes = encrypted_wif_decode[3:7]
''', '''        encrypted_wif_decode: bytes = decode(encrypted_wif)
        if len(encrypted_wif_decode) != 43:
            raise WIFError("Invalid encrypted WIF length", expected=43, got=len(encrypted_wif_decode))
        payload, checksum = encrypted_wif_decode[:39], encrypted_wif_decode[39:]
        if checksum != get_checksum(payload):
            raise WIFError("Invalid encrypted WIF checksum")

        prefix, flag, address_hash = payload[:2], payload[2:3], payload[3:7]
'''),
    (B, '''            aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
            decrypted_half_2: bytes = aes.decrypt(encrypted_half_2)
            decrypted_half_1: bytes = aes.decrypt(encrypted_half_1)

            private_key: bytes = integer_to_bytes(
                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
            )
            if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
''', '''            aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
            decrypted: bytes = aes.decrypt(encrypted_half_1) + aes.decrypt(encrypted_half_2)
            private_key: bytes = bytes(x ^ y for x, y in zip(decrypted, derived_half_1))
            if not 1 <= bytes_to_integer(private_key) < N:
'''),
    (B, '''            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str = private_key_to_wif(
                    private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
                )
                lot: Optional[int] = None
                sequence: Optional[int] = None
                if detail:
                    if lot_and_sequence:
                        sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                        lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                    return dict(
                        wif=wif,
                        private_key=bytes_to_string(private_key),
                        wif_type=wif_type,
                        public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                        public_key_type=public_key_type,
                        seed=bytes_to_string(seed_b),
                        address=address,
                        lot=lot,
                        sequence=sequence
                    )
                return wif
            raise PassphraseError("Incorrect passphrase")
''', '''            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")
            wif: str = private_key_to_wif(
                private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
            )
            if not detail:
                return wif
            lot, sequence = (
                divmod(bytes_to_integer(lot_and_sequence), 4096) if lot_and_sequence else (None, None)
            )
            result: dict = {"wif": wif, "private_key": bytes_to_string(private_key)}
            result.update(
                wif_type=wif_type,
                public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                public_key_type=public_key_type,
                seed=bytes_to_string(seed_b),
                address=address,
                lot=lot,
                sequence=sequence
            )
            return result
'''),
    (B, '''        if wif_type == "wif":
            flag: bytes = integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG)
            private_key: PrivateKey = PrivateKey.from_bytes(get_bytes(wif_to_private_key(
                wif=wif, cryptocurrency=self.cryptocurrency, network=network
            )))
            public_key_type: str = "uncompressed"
        else:
            flag: bytes = integer_to_bytes(NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG)
            private_key: PrivateKey = PrivateKey.from_bytes(get_bytes(wif_to_private_key(
                wif=wif, cryptocurrency=self.cryptocurrency, network=network
            )))
            public_key_type: str = "compressed"
''', '''        private_key: PrivateKey = PrivateKey.from_bytes(get_bytes(wif_to_private_key(
            wif=wif, cryptocurrency=self.cryptocurrency, network=network
        )))
        public_key_type: str = "uncompressed" if wif_type == "wif" else "compressed"
        flag: bytes = integer_to_bytes({
            "uncompressed": NO_EC_MULTIPLIED_WIF_FLAG, "compressed": NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG
        }[public_key_type])
'''),
    (B, '''        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)
        if len(owner_salt) not in [4, 8]:
            raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
        if len(owner_salt) == 4 and (lot is None or sequence is None):
            raise Error("Invalid owner salt length for non lot/sequence", expected=16, got=len(bytes_to_string(owner_salt)))
        if (lot is None) != (sequence is None):
            raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
''', '''        if not owner_salt:
            owner_salt = os.urandom(8)
        else:
            owner_salt = get_bytes(owner_salt)
        if (lot is None) is not (sequence is None):
            raise Error("Both lot & sequence are required", detail=f"got: (lot {lot}) & (sequence {sequence})")
        has_lot: bool = lot is not None and sequence is not None
        if len(owner_salt) != 8 and not (len(owner_salt) == 4 and has_lot):
            raise Error("Invalid owner salt length", expected=[8, 16], got=len(bytes_to_string(owner_salt)))
'''),
    (B, '''            pre_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt[:4], 16384, 8, 8, 32)
            owner_entropy: bytes = owner_salt[:4] + integer_to_bytes((lot * 4096 + sequence), 4)
            pass_factor''', '''            salt: bytes = owner_salt[:4]
            owner_entropy: bytes = salt + ((lot << 12) | sequence).to_bytes(4, "big")
            pre_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), salt, 16384, 8, 8, buflen=32)
            pass_factor'''),
    (B, '''            if public_key_type == "uncompressed":
                flag: bytes = integer_to_bytes(MAGIC_LOT_AND_SEQUENCE_UNCOMPRESSED_FLAG)
            else:
                flag: bytes = integer_to_bytes(MAGIC_LOT_AND_SEQUENCE_COMPRESSED_FLAG)
''', '''            flag: bytes = integer_to_bytes(
                MAGIC_LOT_AND_SEQUENCE_COMPRESSED_FLAG if public_key_type == "compressed"
                else MAGIC_LOT_AND_SEQUENCE_UNCOMPRESSED_FLAG
            )
'''),
    (B58, '''    dec = bytearray()
    while val > 0:
        val, mod = divmod(val, 256)
        dec.append(mod)

    dec.extend(bytearray(prefix))

    return bytes(dec[::-1])
''', '''    body = val.to_bytes((val.bit_length() + 7) // 8, "big")
    return b"\\0" * prefix + body
'''),
    (R, '''    return b"".join(struct.pack("<L", h & 0xffffffff) for h in state)
''', '''    return struct.pack("<5L", *[h & 0xffffffff for h in state])
'''),
    (PT, '''        return self.__class__(self.point + point.underlying_object())
''', '''        total = self.underlying_object() + point.underlying_object()
        return type(self)(total)
'''),
]

# ---- private methods, loops to comprehensions, constants hoisted
BATCHES["c"] = [
    (B, '''    def encrypt(self, wif: str, passphrase: str, network: Optional[str] = None) -> str:
''', '''    def _select_network(self, network: Optional[str]) -> str:
        selected: str = network or self.network
        if selected not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(selected))
        return selected

    def _address(self, public_key: PublicKey, public_key_type: str, network: str) -> str:
        prefixes: dict = self.cryptocurrency.NETWORKS[network]
        return P2PKHAddress.encode(
            public_key=public_key, address_prefix=prefixes["address_prefix"], public_key_type=public_key_type
        )

    @staticmethod
    def _address_hash(address: str) -> bytes:
        return get_checksum(address.encode("utf-8"))

    def encrypt(self, wif: str, passphrase: str, network: Optional[str] = None) -> str:
'''),
    ("*" + B, '''        network: str = (
            network if network else self.network
        )
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
''', '''        network: str = self._select_network(network)
'''),
    ("*" + B, '''        address: str = P2PKHAddress.encode(
            public_key=public_key,
            address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
            public_key_type=public_key_type
        )
''', '''        address: str = self._address(public_key, public_key_type, network)
'''),
    ("*" + B, '''get_checksum(get_bytes(address, unhexlify=False))''', '''self._address_hash(address)'''),
    (B, '''        if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point''', '''        pass_factor_integer: int = bytes_to_integer(pass_factor)
        if not (0 < pass_factor_integer < N):
            raise Error("Invalid EC encrypted WIF (Wallet Import Format)")

        pass_point'''),
    (B, '''        try:
            public_key: PublicKey = PublicKey.from_point(
                PublicKey.from_bytes(point_b).point() * bytes_to_integer(pass_factor)
            )
            public_key_type: str = "uncompressed"
            if bytes_to_integer(flag) in FLAGS["compression"]:
                public_key_type: str = "compressed"
        except Secp256k1Error:
            raise PassphraseError("Incorrect passphrase")
''', '''        public_key_type: str = "compressed" if flag[0] in FLAGS["compression"] else "uncompressed"
        try:
            generated = PublicKey.from_bytes(point_b).point() * pass_factor_integer
            public_key: PublicKey = PublicKey.from_point(generated)
        except Secp256k1Error as error:
            raise PassphraseError("Incorrect passphrase") from error
'''),
    (B, '''            raise Error("Invalid confirmation code")
        if len''', '''            raise Error("Invalid confirmation code") from None
        if len'''),
    (U, '''    bytes_num = bytes_num or ((data.bit_length() if data > 0 else 1) + 7) // 8
    return data.to_bytes(bytes_num, byteorder=endianness, signed=signed)
''', '''    if not bytes_num:
        bytes_num = max(1, (data.bit_length() + 7) // 8)
    return data.to_bytes(bytes_num, endianness, signed=signed)
'''),
    (C, '''    return (
        hashlib.new("ripemd160", get_bytes(data)).digest()
        if "ripemd160" in hashlib.algorithms_available else
        r160(get_bytes(data))
    )
''', '''    message: bytes = get_bytes(data)
    if "ripemd160" in hashlib.algorithms_available:
        return hashlib.new("ripemd160", message).digest()
    return r160(message)
'''),
    (C, '''    return hashlib.sha256(get_bytes(data)).digest()
''', '''    digest = hashlib.sha256()
    digest.update(get_bytes(data))
    return digest.digest()
'''),
    (B58, '''        if digit < 0:
            raise ValueError("invalid base58 character")
        val = (val * len(alphabet)) + digit
        if val == 0:
            prefix += 1
''', '''        if digit == -1:
            raise ValueError("invalid base58 character")
        val = digit + val * 58
        if not val:
            prefix = prefix + 1
'''),
    (B58, '''    n = len(data) - len(data.lstrip(b"\\0"))
    return alphabet[0] * n + enc
''', '''    zeros = 0
    for byte in data:
        if byte != 0:
            break
        zeros += 1
    return alphabet[0] * zeros + enc
'''),
    (R, '''    if i == 0:
        return x ^ y ^ z
    elif i == 1:
        return (x & y) | (~x & z)
    elif i == 2:
        return (x | ~y) ^ z
    elif i == 3:
        return (x & z) | (y & ~z)
    elif i == 4:
        return x ^ (y | ~z)
    else:
        assert False
''', '''    if i == 0:
        return x ^ y ^ z
    if i == 1:
        return z ^ (x & (y ^ z))
    if i == 2:
        return (x | ~y) ^ z
    if i == 3:
        return y ^ (z & (x ^ y))
    assert i == 4
    return x ^ (y | ~z)
'''),
    (W, '''    if len(get_bytes(private_key)) != 32:
        raise Secp256k1Error("Invalid private key length", expected=64, got=len(private_key))

    wif_payload: bytes = (
        integer_to_bytes(wif_prefix) + get_bytes(private_key)
    )
    wif_compressed_payload: bytes = (
        integer_to_bytes(wif_prefix) + get_bytes(private_key) + integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)
    )
    return (
        encode(wif_payload + get_checksum(wif_payload)),
        encode(wif_compressed_payload + get_checksum(wif_compressed_payload))
    )
''', '''    key: bytes = get_bytes(private_key)
    if len(key) != 32:
        raise Secp256k1Error("Invalid private key length", expected=64, got=len(private_key))

    prefix: bytes = integer_to_bytes(wif_prefix)
    first, second = (
        encode(payload + get_checksum(payload))
        for payload in (prefix + key, prefix + key + integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))
    )
    return first, second
'''),
    (PV, '''        try:
            return cls(
                SigningKey.from_string(
                    private_key, curve=curves.SECP256k1
                )
            )
        except keys.MalformedPointError as ex:
            raise Secp256k1Error("Invalid private key bytes") from ex
''', '''        try:
            signing_key = SigningKey.from_string(private_key, curves.SECP256k1)
        except keys.MalformedPointError as ex:
            raise Secp256k1Error("Invalid private key bytes") from ex
        else:
            return cls(signing_key=signing_key)
'''),
    (PT, '''            x: bytes = integer_to_bytes(
                self.point.x(), COORDINATE_POINT_LENGTH
            )
            return b"\\x03" + x if self.point.y() & 1 else b"\\x02" + x
''', '''            x: bytes = integer_to_bytes(
                self.x(), COORDINATE_POINT_LENGTH
            )
            return (b"\\x02", b"\\x03")[self.y() % 2] + x
'''),
]

# ---- records, readers, generators, decrypt split over methods
BATCHES["d"] = [
    (B, '''class BIP38:
    """
''', '''class _Payload(NamedTuple):
    prefix: bytes
    flag: int
    address_hash: bytes
    rest: bytes

    @classmethod
    def parse(cls, raw: bytes) -> "_Payload":
        prefix, flag, address_hash = struct.unpack(">2sB4s", raw[:7])
        return cls(prefix=prefix, flag=flag, address_hash=address_hash, rest=raw[7:-4])

    @property
    def halves(self):
        return self.rest[:16], self.rest[16:]


class _Reader:
    def __init__(self, data: bytes) -> None:
        self._stream = io.BytesIO(data)

    def take(self, count: int) -> bytes:
        return self._stream.read(count)

    def rest(self) -> bytes:
        return self._stream.read()


@dataclass
class _Result:
    wif: str
    private_key: str
    wif_type: str
    public_key: str
    public_key_type: str
    seed: Optional[str]
    address: str
    lot: Optional[int] = None
    sequence: Optional[int] = None


def _chunks(data: bytes, size: int):
    for start in range(0, len(data), size):
        yield data[start:start + size]


def _xor(first: bytes, second: bytes) -> bytes:
    return bytes(a ^ b for a, b in zip(first, second))


class BIP38:
    """
'''),
    (B, '''import os
''', '''import io
import os
import struct
from dataclasses import asdict, dataclass
'''),
    (B, '''    Type, Union, Optional, Literal, List
''', '''    Type, Union, Optional, Literal, List, NamedTuple
'''),
    (B, '''        aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
        encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
        ))
        encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
        ))
''', '''        aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
        encrypted_half_1, encrypted_half_2 = map(
            aes.encrypt, _chunks(_xor(private_key.raw(), derived_half_1), 16)
        )
'''),
    (B, '''        prefix: bytes = encrypted_wif_decode[:2]
        flag: bytes = encrypted_wif_decode[2:3]
        address_hash: bytes = encrypted_wif_decode[3:7]

        if prefix == integer_to_bytes(NO_EC_MULTIPLIED_PRIVATE_KEY_PREFIX):

            if flag == integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG):
                wif_type: Literal["wif", "wif-compressed"] = "wif"
                public_key_type: str = "uncompressed"
            elif flag == integer_to_bytes(NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG):
                wif_type: Literal["wif", "wif-compressed"] = "wif-compressed"
                public_key_type: str = "compressed"
            else:
                raise Error(
                    "Invalid flag", expected=[
                        bytes_to_string(integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG)),
                        bytes_to_string(integer_to_bytes(NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG))
                    ], got=bytes_to_string(flag)
                )
''', '''        payload: _Payload = _Payload.parse(encrypted_wif_decode)
        prefix: bytes = payload.prefix
        flag: bytes = bytes([payload.flag])
        address_hash: bytes = payload.address_hash

        if prefix == integer_to_bytes(NO_EC_MULTIPLIED_PRIVATE_KEY_PREFIX):
            kinds = {
                NO_EC_MULTIPLIED_WIF_FLAG: ("wif", "uncompressed"),
                NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG: ("wif-compressed", "compressed")
            }
            if payload.flag not in kinds:
                raise Error(
                    "Invalid flag", expected=["%02x" % known for known in kinds], got=bytes_to_string(flag)
                )
            wif_type, public_key_type = kinds[payload.flag]
'''),
    (B, '''            encrypted_half_1: bytes = encrypted_wif_decode[7:23]
            encrypted_half_2: bytes = encrypted_wif_decode[23:39]
''', '''            encrypted_half_1, encrypted_half_2 = payload.halves
'''),
    (B, '''                return dict(
                    wif=wif,
                    private_key=bytes_to_string(private_key),
                    wif_type=wif_type,
                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                    public_key_type=public_key_type,
                    seed=None,
                    address=address,
                    lot=None,
                    sequence=None
                )
''', '''                return asdict(_Result(
                    wif=wif,
                    private_key=bytes_to_string(private_key),
                    wif_type=wif_type,
                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                    public_key_type=public_key_type,
                    seed=None,
                    address=address
                ))
'''),
    (B, '''            owner_entropy: bytes = encrypted_wif_decode[7:15]
            encrypted_half_1_half_1: bytes = encrypted_wif_decode[15:23]
            encrypted_half_2: bytes = encrypted_wif_decode[23:-4]
''', '''            owner_entropy, encrypted_half_1_half_1 = _chunks(payload.rest[:16], 8)
            encrypted_half_2: bytes = payload.rest[16:]
'''),
    (B, '''        flag: bytes = confirmation_code_decode[5:6]
        address_hash: bytes = confirmation_code_decode[6:10]
        owner_entropy: bytes = confirmation_code_decode[10:18]
        encrypted_point_b: bytes = confirmation_code_decode[18:]
''', '''        reader: _Reader = _Reader(confirmation_code_decode)
        reader.take(prefix_length)
        flag: bytes = reader.take(1)
        address_hash: bytes = reader.take(4)
        owner_entropy: bytes = reader.take(8)
        encrypted_point_b: bytes = reader.rest()
'''),
    (B, '''        try:
            confirmation_code_decode: bytes = check_decode(confirmation_code)
        except ValueError:
            raise Error("Invalid confirmation code")
        if len(confirmation_code_decode) != 51:
''', '''        confirmation_code_decode: Optional[bytes] = None
        with contextlib.suppress(ValueError):
            confirmation_code_decode = check_decode(confirmation_code)
        if confirmation_code_decode is None:
            raise Error("Invalid confirmation code")
        if len(confirmation_code_decode) != 51:
'''),
    (B, '''import unicodedata
''', '''import unicodedata
import contextlib
'''),
    (B, '''                lot: Optional[int] = None
                sequence: Optional[int] = None
                if detail:
                    if lot_and_sequence:
                        sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                        lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                    return dict(
                        wif=wif,
''', '''                lot: Optional[int] = None
                sequence: Optional[int] = None
                if detail:
                    if lot_and_sequence:
                        (packed,) = struct.unpack(">I", lot_and_sequence)
                        lot, sequence = packed >> 12, packed & 0xfff
                    return dict(
                        wif=wif,
'''),
    (B58, '''    val = 0

    if type(data) == str:
        data = bytearray(data)

    for (i, c) in enumerate(data[::-1]):
        val += (256 ** i) * c
    return val
''', '''    return int.from_bytes(data, "big")
'''),
    (B58, '''    n = len(data) - len(data.lstrip(b"\\0"))
    return alphabet[0] * n + enc
''', '''    n = sum(1 for _ in takewhile(lambda byte: byte == 0, data))
    return alphabet[0] * n + enc
'''),
    (B58, '''from hashlib import sha256
''', '''from hashlib import sha256
from itertools import takewhile
'''),
    (R, '''    x = [struct.unpack("<L", block[4*i:4*(i+1)])[0] for i in range(16)]
''', '''    x = struct.unpack("<16L", block)
'''),
    (R, '''    for b in range(len(fin) >> 6):
        args = list(state) + [fin[64*b:64*(b+1)]]
        state = compress(*args)
    # Produce output.
''', '''    for start in range(0, len(fin), 64):
        state = compress(*state, fin[start:start + 64])
    # Produce output.
'''),
    (U, '''    tmp = bytearray(data)
    tmp.reverse()
    return bytes(tmp)
''', '''    return bytes(reversed(data))
'''),
    (U, '''    try:
        bytes.fromhex(data)
        return data
    except (ValueError, TypeError):
        pass
    if not isinstance(data, bytes):
        data = bytes(data, 'utf-8')
    return data.hex()
''', '''    if isinstance(data, bytes):
        return data.hex()
    try:
        bytes.fromhex(data)
    except ValueError:
        return data.encode("utf-8").hex()
    return data
'''),
    (W, '''    return bytes_to_string(decode_wif(
        wif=wif, wif_prefix=get_wif_prefix(cryptocurrency, network)
    )[2])
''', '''    *_, checksum = decode_wif(wif, get_wif_prefix(cryptocurrency, network))
    return checksum.hex()
'''),
    (A, '''        address_prefix: bytes = integer_to_bytes(
            kwargs.get("address_prefix", cls.address_prefix)
        )

        if not isinstance(public_key, PublicKey):
            public_key: PublicKey = PublicKey.from_bytes(get_bytes(public_key))

        public_key_hash: bytes = hash160(
            public_key.raw_compressed()
            if kwargs.get("public_key_type", "compressed") == "compressed" else
            public_key.raw_uncompressed()
        )
''', '''        options: dict = {
            "address_prefix": cls.address_prefix, "public_key_type": "compressed", **kwargs
        }
        address_prefix: bytes = integer_to_bytes(options["address_prefix"])
        if not isinstance(public_key, PublicKey):
            public_key: PublicKey = PublicKey.from_bytes(get_bytes(public_key))
        serialise = getattr(
            public_key, "raw_compressed" if options["public_key_type"] == "compressed" else "raw_uncompressed"
        )
        public_key_hash: bytes = hash160(serialise())
'''),
]

# ---- decrypt split over private methods, decorators, match statements, module constants
import re as _re
_src = open("/repo/" + B).read()
_i = _src.index("        if prefix == integer_to_bytes(NO_EC_MULTIPLIED_PRIVATE_KEY_PREFIX):\n")
_j = _src.index("        elif prefix == integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX):\n", _i)
_k = _src.index("        else:\n            raise Error(\n                \"Invalid prefix\"", _j)
_dedent = lambda t: "\n".join(x[4:] if x.startswith("    ") else x for x in t.split("\n"))
_first, _second = _src[_i:_j].split("\n", 1)[1], _src[_j:_k].split("\n", 1)[1]
_head = _src[_src.index("        encrypted_wif_decode: bytes = decode(encrypted_wif)\n"):_i]
_tail = _src[_k:]
_cut = "        prefix: bytes = encrypted_wif_decode[:2]\n"
assert _cut in _head
BATCHES["e"] = [
    (B, _src[_i:], '''        if prefix == _NO_EC_PREFIX:
            return self._decrypt_no_ec(encrypted_wif_decode, flag, address_hash, passphrase, network, detail)
        if prefix == _EC_PREFIX:
            return self._decrypt_ec(encrypted_wif_decode, flag, address_hash, passphrase, network, detail)
        raise Error(
            "Invalid prefix", expected=[bytes_to_string(_NO_EC_PREFIX), bytes_to_string(_EC_PREFIX)],
            got=bytes_to_string(prefix)
        )

    def _decrypt_no_ec(self, encrypted_wif_decode, flag, address_hash, passphrase, network, detail):
''' + _dedent(_first).rstrip() + '''

    def _decrypt_ec(self, encrypted_wif_decode, flag, address_hash, passphrase, network, detail):
''' + _dedent(_second).rstrip() + "\n"),
    (B, '''

class BIP38:
    """
''', '''

_NO_EC_PREFIX: bytes = integer_to_bytes(NO_EC_MULTIPLIED_PRIVATE_KEY_PREFIX)
_EC_PREFIX: bytes = integer_to_bytes(EC_MULTIPLIED_PRIVATE_KEY_PREFIX)
_FLAG_BY_MAGIC = {
    (MAGIC_LOT_AND_SEQUENCE, "uncompressed"): MAGIC_LOT_AND_SEQUENCE_UNCOMPRESSED_FLAG,
    (MAGIC_LOT_AND_SEQUENCE, "compressed"): MAGIC_LOT_AND_SEQUENCE_COMPRESSED_FLAG,
    (MAGIC_NO_LOT_AND_SEQUENCE, "uncompressed"): MAGIC_NO_LOT_AND_SEQUENCE_UNCOMPRESSED_FLAG,
    (MAGIC_NO_LOT_AND_SEQUENCE, "compressed"): MAGIC_NO_LOT_AND_SEQUENCE_COMPRESSED_FLAG
}


def _in_range(scalar: bytes) -> bool:
    return 1 <= bytes_to_integer(scalar) <= N - 1


def _on_network(method):
    @functools.wraps(method)
    def wrapper(self, *args, **kwargs):
        network = kwargs.get("network") or self.network
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        kwargs["network"] = network
        return method(self, *args, **kwargs)
    return wrapper


class BIP38:
    """
'''),
    (B, '''import unicodedata
''', '''import functools
import unicodedata
'''),
    (B, '''        if wif_type == "wif":
            public_key_type = "uncompressed"
        elif wif_type == "wif-compressed":
            public_key_type = "compressed"
        else:
            raise WIFError("Invalid wif type", expected=WIF_TYPES, got=wif_type)
''', '''        match wif_type:
            case "wif":
                public_key_type = "uncompressed"
            case "wif-compressed":
                public_key_type = "compressed"
            case _:
                raise WIFError("Invalid wif type", expected=WIF_TYPES, got=wif_type)
'''),
    ("*" + B, '''if bytes_to_integer(pass_factor) == 0 or bytes_to_integer(pass_factor) >= N:''', '''if not _in_range(pass_factor):'''),
    (B, '''        if magic == integer_to_bytes(MAGIC_LOT_AND_SEQUENCE):
            if public_key_type == "uncompressed":
                flag: bytes = integer_to_bytes(MAGIC_LOT_AND_SEQUENCE_UNCOMPRESSED_FLAG)
            else:
                flag: bytes = integer_to_bytes(MAGIC_LOT_AND_SEQUENCE_COMPRESSED_FLAG)
        elif magic == integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE):
            if public_key_type == "uncompressed":
                flag: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE_UNCOMPRESSED_FLAG)
            else:
                flag: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE_COMPRESSED_FLAG)
        else:
''', '''        try:
            flag: bytes = integer_to_bytes(_FLAG_BY_MAGIC[bytes_to_integer(magic), public_key_type])
        except KeyError:
'''),
    (W, '''    if wif_type not in WIF_TYPES:
        raise WIFError("Wrong WIF type", expected=WIF_TYPES, got=wif_type)
    wif, wif_compressed = encode_wif(
        private_key=private_key, wif_prefix=get_wif_prefix(cryptocurrency, network)
    )
    return wif if wif_type == "wif" else wif_compressed
''', '''    for index, known in enumerate(WIF_TYPES):
        if known == wif_type:
            break
    else:
        raise WIFError("Wrong WIF type", expected=WIF_TYPES, got=wif_type)

    return encode_wif(
        private_key=private_key, wif_prefix=get_wif_prefix(cryptocurrency, network)
    )[index]
'''),
    (W, '''    elif len(private_key) == 33:
        if not private_key.endswith(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)):
            raise WIFError(f"Invalid Wallet Import Format (WIF)")
        private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
        wif_type = "wif-compressed"
''', '''    elif len(private_key) == 33:
        *key, marker = private_key
        if marker != COMPRESSED_PRIVATE_KEY_PREFIX:
            raise WIFError(f"Invalid Wallet Import Format (WIF)")
        private_key, wif_type = bytes(key), "wif-compressed"
'''),
    (U, '''    if not data:
        return b''
    if isinstance(data, bytes):
        return data
    elif isinstance(data, str):
        if unhexlify:
            return bytes.fromhex(data)
        else:
            return bytes(data, 'utf-8')
    else:
        raise TypeError("Agreement must be either 'bytes' or 'string'!")
''', '''    match data:
        case _ if not data:
            return b''
        case bytes():
            return data
        case str() if unhexlify:
            return bytes.fromhex(data)
        case str():
            return data.encode()
    raise TypeError("Agreement must be either 'bytes' or 'string'!")
'''),
    (U, '''    return int.from_bytes(data, byteorder=endianness, signed=signed)
''', '''    return int.from_bytes(bytes(data), endianness, signed=signed)
'''),
    (C, '''    return double_sha256(data)[:CHECKSUM_BYTE_LENGTH]
''', '''    first = hashlib.sha256(get_bytes(data))
    second = hashlib.sha256(first.digest())
    return second.digest()[0:CHECKSUM_BYTE_LENGTH]
'''),
    (C, '''    return ripemd160(sha256(data))
''', '''    digest: bytes = sha256(data)
    return ripemd160(data=digest)
'''),
    (B58, '''    val = 0
    prefix = 0
    for c in data:
        digit = alphabet.encode("utf-8").find(c)
        if digit < 0:
            raise ValueError("invalid base58 character")
        val = (val * len(alphabet)) + digit
        if val == 0:
            prefix += 1
''', '''    symbols = alphabet.encode("utf-8")
    index = {symbol: position for position, symbol in reversed(list(enumerate(symbols)))}
    val = 0
    for c in data:
        if c not in index:
            raise ValueError("invalid base58 character")
        val = val * len(alphabet) + index[c]
    prefix = len(data) - len(data.lstrip(symbols[:1]))
'''),
    (R, '''    # Iterate over the 80 rounds of the compression.
    for j in range(80):
        rnd = j >> 4
        # Perform left side of the transformation.
        al = rol(al + fi(bl, cl, dl, rnd) + x[ML[j]] + KL[rnd], RL[j]) + el
        al, bl, cl, dl, el = el, al, bl, rol(cl, 10), dl
        # Perform right side of the transformation.
        ar = rol(ar + fi(br, cr, dr, 4 - rnd) + x[MR[j]] + KR[rnd], RR[j]) + er
        ar, br, cr, dr, er = er, ar, br, rol(cr, 10), dr
''', '''    def path(words, shifts, constants, functions):
        a, b, c, d, e = h0, h1, h2, h3, h4
        for j, (word, shift) in enumerate(zip(words, shifts)):
            rnd = j // 16
            t = rol(a + fi(b, c, d, functions[rnd]) + x[word] + constants[rnd], shift) + e
            a, b, c, d, e = e, t, b, rol(c, 10), d
        return a, b, c, d, e

    al, bl, cl, dl, el = path(ML, RL, KL, range(5))
    ar, br, cr, dr, er = path(MR, RR, KR, range(4, -1, -1))
'''),
    (PB, '''        return self.raw_compressed() if public_key_type == "compressed" else self.raw_uncompressed()
''', '''        if public_key_type != "compressed":
            return self.raw_uncompressed()
        return self.raw_compressed()
'''),
    (PV, '''        return PublicKey(self.signing_key.get_verifying_key())
''', '''        verifying_key = self.signing_key.verifying_key
        return PublicKey(verifying_key)
'''),
    (PT, '''        return cls(
            PointJacobi.from_affine(
                _Point(curve_secp256k1, x, y)
            )
        )
''', '''        affine = _Point(curve_secp256k1, x, y)
        return cls(point_obj=PointJacobi.from_affine(affine))
'''),
]

# ---- further idioms: walrus, slice objects, partial, reduce, enumerations, any/all, formatting, padding methods
BATCHES["f"] = [
    (B, '''        network: str = (
            network if network else self.network
        )
        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        wif_type: str = get_wif_type(
            wif=wif, cryptocurrency=self.cryptocurrency, network=network
        )
        if wif_type == "wif":
            flag: bytes = integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG)
            private_key: PrivateKey = PrivateKey.from_bytes(get_bytes(wif_to_private_key(
                wif=wif, cryptocurrency=self.cryptocurrency, network=network
            )))
            public_key_type: str = "uncompressed"
        else:
            flag: bytes = integer_to_bytes(NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG)
            private_key: PrivateKey = PrivateKey.from_bytes(get_bytes(wif_to_private_key(
                wif=wif, cryptocurrency=self.cryptocurrency, network=network
            )))
            public_key_type: str = "compressed"
''', '''        if (network := network or self.network) not in set(self.networks):
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        where = {"cryptocurrency": self.cryptocurrency, "network": network}
        compressed = get_wif_type(wif, **where) != "wif"
        private_key: PrivateKey = PrivateKey.from_bytes(get_bytes(wif_to_private_key(wif, **where)))
        flag, public_key_type = {
            False: (integer_to_bytes(NO_EC_MULTIPLIED_WIF_FLAG), "uncompressed"),
            True: (integer_to_bytes(NO_EC_MULTIPLIED_WIF_COMPRESSED_FLAG), "compressed"),
        }[compressed]
'''),
    (B, '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        derived_half_1, derived_half_2 = key[0:32], key[32:64]

        aes: AESModeOfOperationECB = AESModeOfOperationECB(derived_half_2)
        encrypted_half_1: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[0:16]) ^ bytes_to_integer(derived_half_1[0:16]), 16
        ))
        encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
        ))
''', '''        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
        encrypt_block = AESModeOfOperationECB(key[32:]).encrypt
        masked = bytes(map(operator.xor, private_key.raw(), key))
        encrypted_half_1, encrypted_half_2 = (
            encrypt_block(masked[start:start + 16]) for start in (0, 16)
        )
'''),
    (B, '''import unicodedata
''', '''import operator
import unicodedata
from functools import partial
'''),
    (B, '''            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            magic: bytes = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE)
            owner_entropy: bytes = owner_salt
''', '''            stretch = partial(scrypt.hash, N=16384, r=8, p=8, buflen=32)
            pass_factor: bytes = stretch(unicodedata.normalize("NFC", passphrase), owner_salt)
            magic, owner_entropy = integer_to_bytes(MAGIC_NO_LOT_AND_SEQUENCE), owner_salt
'''),
    (B, '''        magic: bytes = intermediate_decode[:8]
        owner_entropy: bytes = intermediate_decode[8:16]
        pass_point: bytes = intermediate_decode[16:]
''', '''        magic, owner_entropy, pass_point = (
            intermediate_decode[field] for field in (slice(0, 8), slice(8, 16), slice(16, None))
        )
'''),
    (B, '''        if wif_type == "wif":
            public_key_type = "uncompressed"
        elif wif_type == "wif-compressed":
            public_key_type = "compressed"
        else:
            raise WIFError("Invalid wif type", expected=WIF_TYPES, got=wif_type)
''', '''        try:
            public_key_type = {"wif": "uncompressed", "wif-compressed": "compressed"}[wif_type]
        except KeyError as error:
            raise WIFError("Invalid wif type", expected=WIF_TYPES, got=wif_type) from error
'''),
    (B, '''        flag: bytes = confirmation_code_decode[5:6]
        address_hash: bytes = confirmation_code_decode[6:10]
        owner_entropy: bytes = confirmation_code_decode[10:18]
        encrypted_point_b: bytes = confirmation_code_decode[18:]
''', '''        rest = confirmation_code_decode.removeprefix(prefix_got)
        flag, rest = rest[:1], rest[1:]
        address_hash, rest = rest[:4], rest[4:]
        owner_entropy, encrypted_point_b = rest[:8], rest[8:]
'''),
    (B, '''        if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
            lot: Optional[int] = None
            sequence: Optional[int] = None
            if detail:
                if lot_and_sequence:
                    sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                    public_key_type=public_key_type,
                    address=address,
                    lot=lot,
                    sequence=sequence
                )
            return address
        raise PassphraseError("Incorrect passphrase")
''', '''        if not hmac.compare_digest(get_checksum(get_bytes(address, unhexlify=False)), address_hash):
            raise PassphraseError("Incorrect passphrase")
        if not detail:
            return address
        lot, sequence = (
            (None, None) if lot_and_sequence is None else divmod(int(lot_and_sequence.hex(), 16), 1 << 12)
        )
        result = {"public_key": public_key.raw(public_key_type=public_key_type).hex()}
        result.update(public_key_type=public_key_type, address=address)
        result |= {"lot": lot, "sequence": sequence}
        return result
'''),
    (B, '''import os
''', '''import hmac
import os
'''),
    (B, '''            private_key: bytes = integer_to_bytes(
                bytes_to_integer(decrypted_half_1 + decrypted_half_2) ^ bytes_to_integer(derived_half_1), 32
            )
            if bytes_to_integer(private_key) == 0 or bytes_to_integer(private_key) >= N:
                raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
''', '''            secret = int.from_bytes(decrypted_half_1 + decrypted_half_2, "big")
            secret ^= int.from_bytes(derived_half_1, "big")
            if secret not in range(1, N):
                raise Error("Invalid Non-EC encrypted WIF (Wallet Import Format)")
            private_key: bytes = secret.to_bytes(32, "big")
'''),
    (B, '''            seed_b: bytes = integer_to_bytes(
                bytes_to_integer(aes.decrypt(encrypted_half_1)) ^ bytes_to_integer(encrypted_seed_b[:16]), 16
            ) + encrypted_half_1_half_2_seed_b_last_3[8:]
''', '''            pieces = [bytes(16), encrypted_half_1_half_2_seed_b_last_3[8:]]
            pieces[0] = bytes(
                left ^ right for left, right in zip(aes.decrypt(encrypted_half_1), encrypted_seed_b, strict=False)
            )
            seed_b: bytes = b"".join(pieces)
'''),
    (W, '''    if wif_type not in WIF_TYPES:
        raise WIFError("Wrong WIF type", expected=WIF_TYPES, got=wif_type)
    wif, wif_compressed = encode_wif(
        private_key=private_key, wif_prefix=get_wif_prefix(cryptocurrency, network)
    )
    return wif if wif_type == "wif" else wif_compressed
''', '''    if wif_type in WIF_TYPES:
        both = encode_wif(private_key=private_key, wif_prefix=get_wif_prefix(cryptocurrency, network))
        return both[wif_type != "wif"]
    raise WIFError("Wrong WIF type", expected=WIF_TYPES, got=wif_type)
'''),
    (W, '''    if len(private_key) not in [33, 32]:
        raise WIFError(f"Invalid Wallet Import Format (WIF)")
    elif len(private_key) == 33:
        if not private_key.endswith(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX)):
            raise WIFError(f"Invalid Wallet Import Format (WIF)")
        private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
        wif_type = "wif-compressed"
    if get_checksum''', '''    match len(private_key):
        case 32:
            pass
        case 33 if private_key[-1] == COMPRESSED_PRIVATE_KEY_PREFIX:
            *body, _ = private_key
            private_key, wif_type = bytes(body), "wif-compressed"
        case _:
            raise WIFError(f"Invalid Wallet Import Format (WIF)")
    if get_checksum'''),
    (U, '''    if not data:
        return b''
    if isinstance(data, bytes):
        return data
    elif isinstance(data, str):
        if unhexlify:
            return bytes.fromhex(data)
        else:
            return bytes(data, 'utf-8')
    else:
        raise TypeError("Agreement must be either 'bytes' or 'string'!")
''', '''    if not data:
        return b''
    if type(data) is bytes or isinstance(data, bytes):
        return data
    if not isinstance(data, str):
        raise TypeError("Agreement must be either 'bytes' or 'string'!")
    return (bytes.fromhex if unhexlify else str.encode)(data)
'''),
    (U, '''    tmp = bytearray(data)
    tmp.reverse()
    return bytes(tmp)
''', '''    return bytes(reversed(data))
'''),
    (U, '''    bytes_num = bytes_num or ((data.bit_length() if data > 0 else 1) + 7) // 8
    return data.to_bytes(bytes_num, byteorder=endianness, signed=signed)
''', '''    if not bytes_num:
        bits = max(data.bit_length(), 1) if data > 0 else 1
        bytes_num = -(-bits // 8)
    return data.to_bytes(bytes_num, byteorder=endianness, signed=signed)
'''),
    (B58, '''    for (i, c) in enumerate(data[::-1]):
        val += (256 ** i) * c
    return val
''', '''    return reduce(lambda value, byte: value * 256 + byte, data, val)
'''),
    (B58, '''from hashlib import sha256
''', '''from functools import reduce
from hashlib import sha256
'''),
    (C, '''    return double_sha256(data)[:CHECKSUM_BYTE_LENGTH]
''', '''    digest = data
    for _ in range(2):
        digest = sha256(digest)
    return digest[slice(CHECKSUM_BYTE_LENGTH)]
'''),
    (A, '''        public_key_hash: bytes = hash160(
            public_key.raw_compressed()
            if kwargs.get("public_key_type", "compressed") == "compressed" else
            public_key.raw_uncompressed()
        )

        return ensure_string(check_encode(
            (address_prefix + public_key_hash), alphabet=kwargs.get(
                "alphabet", cls.alphabet
            )
        ))
''', '''        options = {"public_key_type": "compressed", "alphabet": cls.alphabet, **kwargs}
        form = "compressed" if options["public_key_type"] == "compressed" else "uncompressed"
        payload = b"%b%b" % (address_prefix, hash160(getattr(public_key, f"raw_{form}")()))
        return ensure_string(check_encode(payload, options["alphabet"]))
'''),
    (A, '''        expected_length: int = 20 + len(address_prefix)
        if len(address_decode) != expected_length:
            raise AddressError(f"Invalid length (expected: {expected_length}, got: {len(address_decode)})")

        prefix_got: bytes = address_decode[:len(address_prefix)]
        if address_prefix != prefix_got:
            raise AddressError(f"Invalid prefix (expected: {address_prefix}, got: {prefix_got})")

        return bytes_to_string(address_decode[len(address_prefix):])
''', '''        prefix_got, public_key_hash = address_decode[:-20], address_decode[-20:]
        if len(address_decode) != len(address_prefix) + 20:
            raise AddressError("Invalid length (got: {})".format(len(address_decode)))
        elif prefix_got != address_prefix:
            raise AddressError("Invalid prefix (expected: %r, got: %r)" % (address_prefix, prefix_got))
        return bytes_to_string(public_key_hash)
'''),
    (PB, '''        return self.raw_compressed() if public_key_type == "compressed" else self.raw_uncompressed()

''', '''        return {True: self.raw_compressed, False: self.raw_uncompressed}[public_key_type == "compressed"]()

'''),
    (PB, '''        return self.verify_key.to_string("compressed")
''', '''        uncompressed = self.verify_key.to_string()
        x, y = uncompressed[:32], uncompressed[32:]
        return bytes([2 + y[-1] % 2]) + x
'''),
    (R, '''    for j in range(80):
        rnd = j >> 4
        # Perform left side of the transformation.
        al = rol(al + fi(bl, cl, dl, rnd) + x[ML[j]] + KL[rnd], RL[j]) + el
        al, bl, cl, dl, el = el, al, bl, rol(cl, 10), dl
        # Perform right side of the transformation.
        ar = rol(ar + fi(br, cr, dr, 4 - rnd) + x[MR[j]] + KR[rnd], RR[j]) + er
        ar, br, cr, dr, er = er, ar, br, rol(cr, 10), dr
''', '''    for j, (ml, mr, rl, rr) in enumerate(zip(ML, MR, RL, RR)):
        rnd = j // 16
        # Perform both sides of the transformation.
        tl = rol(al + fi(bl, cl, dl, rnd) + x[ml] + KL[rnd], rl) + el
        tr = rol(ar + fi(br, cr, dr, 4 - rnd) + x[mr] + KR[rnd], rr) + er
        al, el, dl, cl, bl = el, dl, rol(cl, 10), bl, tl
        ar, er, dr, cr, br = er, dr, rol(cr, 10), br, tr
'''),
    (R, '''    # Process full 64-byte blocks in the input.
    for b in range(len(data) >> 6):
        args = list(state) + [data[64*b:64*(b+1)]]
        state = compress(*args)
    # Construct final blocks (with padding and size).
    pad = b"\\x80" + b"\\x00" * ((119 - len(data)) & 63)
    fin = data[len(data) & ~63:] + pad + struct.pack("<Q", 8 * len(data))
    # Process final blocks.
    for b in range(len(fin) >> 6):
        args = list(state) + [fin[64*b:64*(b+1)]]
        state = compress(*args)
''', '''    # Pad the message (with its size), then process it block by block.
    pad = b"\\x80" + bytes((55 - len(data)) % 64)
    message = data + pad + (len(data) * 8).to_bytes(8, "little")
    for start in range(0, len(message), 64):
        state = compress(*state, message[start:start + 64])
'''),
]
