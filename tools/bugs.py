bug("s01", "C01", [(B, """        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))
        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
""", """        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))
        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase.strip()), address_hash, 16384, 8, 8)
""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
b = BIP38(Bitcoin)
w = "5KN7MzqK5wt2TP1fQCYyHBtDrXdJuXbUzm4A9rKAteGu3Qi5CVR"
assert b.decrypt(b.encrypt(w, "Satoshi "), "Satoshi ") == w
""", "a passphrase with leading or trailing whitespace", "encryption strips the passphrase, decryption does not")

bug("s02", "C02", [(B, """        if wif_type == "wif":
            flag: bytes""", """        if wif_type == "wif" and len(wif) == 51:
            flag: bytes""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Smileycoin
from bip38.wif import private_key_to_wif
from bip38.libs.base58 import check_decode
w = private_key_to_wif(bytes(range(1, 33)), "wif", Smileycoin)
assert check_decode(BIP38(Smileycoin).encrypt(w, "x"))[2] == 0xc0, w
""", "an uncompressed WIF of a currency whose uncompressed WIFs are not 51 characters long (Smileycoin, LBRYCredits)", "the uncompressed key is encrypted as a compressed one")

bug("s03", "C03", [(B, "            if not 100000 <= lot <= 999999:", "            if not 100000 <= lot < 999999:")], """
from bip38 import BIP38
BIP38.intermediate_code("a", lot=999999, sequence=4095, owner_salt="75ed1cdeb254cb38")
""", "the largest lot number", "lot 999999 is refused")

bug("s04", "C03", [(B, "integer_to_bytes((lot * 4096 + sequence), 4)", "integer_to_bytes((lot << 12 | sequence & 0x7ff), 4)")], """
from bip38 import BIP38
from bip38.libs.base58 import check_decode
c = check_decode(BIP38.intermediate_code("a", lot=100000, sequence=2049, owner_salt="75ed1cdeb254cb38"))
assert int.from_bytes(c[12:16], "big") == 100000 * 4096 + 2049
""", "a sequence number of 2048 or more", "the top bit of the sequence number is dropped from the owner entropy")

bug("s05", "C04", [(B, """        if len(intermediate_decode) != 49:
            raise PassphraseError("Invalid intermediate passphrase length", expected=49, got=len(intermediate_decode))
""", """        if len(intermediate_decode) < 49:
            raise PassphraseError("Invalid intermediate passphrase length", expected=49, got=len(intermediate_decode))
"""), (B, "        pass_point: bytes = intermediate_decode[16:]\n", "        pass_point: bytes = intermediate_decode[16:49]\n")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
from bip38.libs.base58 import check_decode, check_encode
i = BIP38.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
long = check_encode(check_decode(i) + b"\\0")
try:
    BIP38(Bitcoin).create_new_encrypted_wif(long, seed="11" * 24)
except Exception:
    sys.exit(0)
sys.exit(1)
""", "an intermediate code with extra payload bytes and a matching checksum", "over-long intermediate codes are accepted")

bug("s06", "C05", [(B, """                if detail:
                    if lot_and_sequence:
                        sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                        lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                    return dict(
                        wif=wif,""", """                if detail:
                    if lot_and_sequence:
                        sequence: int = bytes_to_integer(lot_and_sequence[2:]) % 2048
                        lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                    return dict(
                        wif=wif,""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
b = BIP38(Bitcoin)
i = BIP38.intermediate_code("a", lot=123456, sequence=3000, owner_salt="75ed1cdeb254cb38")
e = b.create_new_encrypted_wif(i, seed="11" * 24)
d = b.decrypt(e["encrypted_wif"], "a", detail=True)
assert (d["lot"], d["sequence"]) == (123456, 3000), d
""", "a sequence number of 2048 or more", "the detailed decryption reports another sequence number")

bug("s07", "C06", [(B, """        if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
            lot: Optional[int] = None
            sequence: Optional[int] = None
            if detail:
                if lot_and_sequence:
                    sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
                    public_key=""", """        if detail or get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
            lot: Optional[int] = None
            sequence: Optional[int] = None
            if detail:
                if lot_and_sequence:
                    sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
                    public_key=""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
from bip38.exceptions import PassphraseError
b = BIP38(Bitcoin)
i = BIP38.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
c = b.create_new_encrypted_wif(i, seed="11" * 24)["confirmation_code"]
bad = 0
for n in range(12):
    try:
        b.confirm_code("wrong%d" % n, c, detail=True)
        bad += 1
    except PassphraseError:
        pass
assert not bad
""", "the detailed form, with a wrong passphrase whose decrypted prefix happens to be that of a point", "a wrong passphrase is confirmed with an unrelated address")

bug("s08", "C07", [(B, """            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str""", """            if lot_and_sequence or get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
from bip38.exceptions import PassphraseError
b = BIP38(Bitcoin)
i = BIP38.intermediate_code("a", lot=100000, sequence=1, owner_salt="75ed1cdeb254cb38")
e = b.create_new_encrypted_wif(i, seed="11" * 24)["encrypted_wif"]
try:
    b.decrypt(e, "wrong")
except PassphraseError:
    sys.exit(0)
sys.exit(1)
""", "an encrypted WIF with lot and sequence and a wrong passphrase", "a wrong passphrase yields a WIF")

bug("s09", "C08", [("bip38/libs/base58.py", "    if chk != sha256(sha256(raw).digest()).digest()[:4]:", "    if not sha256(sha256(raw).digest()).digest().startswith(chk[:3]):")], """
from bip38.libs.base58 import check_encode, check_decode, encode, decode
s = check_encode(b"\\0" * 5 + b"abcdefgh")
d = bytearray(decode(s)); d[-1] ^= 1
try:
    check_decode(encode(bytes(d)))
except ValueError:
    sys.exit(0)
sys.exit(1)
""", "a string corrupted only in the last checksum byte", "the fourth checksum byte is not compared")

bug("s10", "C09", [(B, """                owner_salt: bytes = owner_entropy

            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)""",
"""                owner_salt: bytes = owner_entropy

            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFKC", passphrase), owner_salt, 16384, 8, 8, 32)""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
b = BIP38(Bitcoin)
p = "\\ufb01nance"
i = BIP38.intermediate_code(p, owner_salt="75ed1cdeb254cb38")
e = b.create_new_encrypted_wif(i, seed="11" * 24)["encrypted_wif"]
b.decrypt(e, p)
""", "a passphrase with a compatibility character, EC-multiplied", "EC decryption folds compatibility characters")

bug("s11", "C10", [("bip38/libs/base58.py", """    n = len(data) - len(data.lstrip(b"\\0"))
    return alphabet[0] * n + enc""", """    n = len(data) - len(data.strip(b"\\0")) if enc == "" else len(data) - len(data.lstrip(b"\\0"))
    return alphabet[0] * min(n, 32) + enc""")], """
from bip38.libs.base58 import encode, decode
assert decode(encode(b"\\0" * 40 + b"x")) == b"\\0" * 40 + b"x"
""", "more than 32 leading zero bytes", "leading zero bytes beyond 32 are lost")

bug("s12", "C10", [("bip38/libs/base58.py", """    for c in data:
""", """    for c in data.strip():
""")], """
from bip38.libs.base58 import encode, decode
try:
    decode(encode(b"abc") + "\\n")
except ValueError:
    sys.exit(0)
sys.exit(1)
""", "a string with surrounding whitespace", "whitespace, which is outside the alphabet, is accepted")

bug("s13", "C11", [("bip38/wif.py", "    if len(get_bytes(private_key)) != 32:", "    if len(private_key) not in (32, 64):")], """
from bip38.wif import encode_wif
try:
    encode_wif("11" * 16)
except Exception:
    sys.exit(0)
sys.exit(1)
""", "a key given as 32 hexadecimal digits", "a 16-byte key is encoded")

bug("s14", "C12", [("bip38/p2pkh_address.py", """        if len(address_decode) != expected_length:
            raise""", """        if len(address_decode) not in (21, expected_length):
            raise""")], """
from bip38.p2pkh_address import P2PKHAddress
from bip38.libs.base58 import check_encode
a = check_encode(b"\\x1c\\xb8" + b"q" * 19)
try:
    P2PKHAddress.decode(a, address_prefix=0x1cb8)
except Exception:
    sys.exit(0)
sys.exit(1)
""", "a two-byte prefix and a 19-byte hash", "an address of the wrong length is decoded")

bug("s15", "C13", [("bip38/libs/ripemd160.py", 'struct.pack("<Q", 8 * len(data))', 'struct.pack("<LL", 8 * (len(data) & 0x1fffff), 0)')], """
import hashlib
from bip38.libs.ripemd160 import ripemd160
m = b"x" * (1 << 21)
try:
    want = hashlib.new("ripemd160", m).digest()
except ValueError:
    want = bytes.fromhex("00")
assert ripemd160(m) == want
""", "a message of two megabytes or more", "the length field of the bundled RIPEMD-160 wraps at 2**24 bits")

bug("s16", "C13", [("bip38/libs/ripemd160.py", 'pad = b"\\x80" + b"\\x00" * ((119 - len(data)) & 63)', 'pad = b"\\x80" + b"\\x00" * ((119 - (len(data) & 63 or 64)) % 64 if len(data) & 63 != 55 else 64)')], """
import hashlib
from bip38.libs.ripemd160 import ripemd160
for n in (55, 119):
    m = b"x" * n
    assert ripemd160(m) == hashlib.new("ripemd160", m).digest()
""", "a message whose length is 55 modulo 64", "an extra block of padding is hashed")

bug("s17", "C14", [("bip38/secp256k1/point.py", "        return self.__class__(self.point + point.underlying_object())", """        other = point.underlying_object()
        if self.point.x() == other.x():
            return self.__class__(self.point * 2)
        return self.__class__(self.point + other)""")], """
from bip38.secp256k1 import PrivateKey
from ecdsa.ellipticcurve import INFINITY
from ecdsa.ecdsa import generator_secp256k1 as g
p = PrivateKey.from_bytes((7).to_bytes(32, "big")).public_key().point()
q = p * (g.order() - 1)
assert (p + q).underlying_object() == INFINITY
""", "adding a point and its negative", "adding opposite points gives the double instead of infinity")

bug("s18", "C15", [("bip38/utils.py", """    bytes_num = bytes_num or ((data.bit_length() if data > 0 else 1) + 7) // 8
""", """    if not bytes_num:
        bytes_num = 1 if data < 256 else len("%x" % (data - 1)) + 1 >> 1
""")], """
from bip38.utils import integer_to_bytes, bytes_to_integer
for k in range(1, 60):
    for v in (256 ** k - 1, 256 ** k, 256 ** k + 1):
        assert bytes_to_integer(integer_to_bytes(v)) == v
""", "an exact power of 256", "the minimal length of a power of 256 is one byte short")

bug("s19", "C16", [(B, """        confirmation_code: str = ensure_string(check_encode((
            integer_to_bytes(CONFIRMATION_CODE_PREFIX) +""", """        self.network = network
        confirmation_code: str = ensure_string(check_encode((
            integer_to_bytes(CONFIRMATION_CODE_PREFIX) +""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
b = BIP38(Bitcoin)
w = "5KN7MzqK5wt2TP1fQCYyHBtDrXdJuXbUzm4A9rKAteGu3Qi5CVR"
e = b.encrypt(w, "x")
i = BIP38.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
b.create_new_encrypted_wif(i, seed="11" * 24, network="testnet")
assert b.decrypt(e, "x") == w
""", "a creation for another network followed by a call that relies on the object's network", "the network of the object is changed by a call")

bug("s20", "C16", [(B, """            address: str = P2PKHAddress.encode(
                public_key=public_key,
                address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
                public_key_type=public_key_type
            )
            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str = private_key_to_wif(
                    private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=network
                )""", """            address: str = P2PKHAddress.encode(
                public_key=public_key,
                address_prefix=self.cryptocurrency.NETWORKS[network]["address_prefix"],
                public_key_type=public_key_type
            )
            if get_checksum(get_bytes(address, unhexlify=False)) == address_hash:
                wif: str = private_key_to_wif(
                    private_key=private_key, wif_type=wif_type, cryptocurrency=self.cryptocurrency, network=self.network
                )""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
b, t = BIP38(Bitcoin), BIP38(Bitcoin, "testnet")
i = BIP38.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
e = b.create_new_encrypted_wif(i, seed="11" * 24, network="testnet")["encrypted_wif"]
assert b.decrypt(e, "a", network="testnet") == t.decrypt(e, "a")
""", "an EC-multiplied key decrypted with a network other than the object's", "the WIF is encoded for the object's network")

bug("s21", "C17", [("bip38/cryptocurrencies.py", """class Ycash(ICryptocurrency):

    NETWORKS = {
        "mainnet": {
            "wif_prefix": 0x80,
            "address_prefix": 0x1c28""", """class Ycash(ICryptocurrency):

    NETWORKS = {
        "mainnet": {
            "wif_prefix": 0x80,
            "address_prefix": 0x1c82""")], """
from bip38.cryptocurrencies import Ycash
assert Ycash.NETWORKS["mainnet"]["address_prefix"] == 0x1c28
""", "the Ycash currency", "a transposed address prefix")

bug("s22", "C18", [(B, "        seed_b: bytes = get_bytes(seed) if seed else os.urandom(24)\n", "        seed_b: bytes = get_bytes(seed) if seed else os.urandom(20).rjust(24, b\"\\0\")\n")], """
import os
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
i = BIP38.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
b = BIP38(Bitcoin)
assert any(not b.create_new_encrypted_wif(i)["seed"].startswith("00000000") for _ in range(3))
""", "no seed given", "only twenty random bytes are used in a generated seed")

bug("s23", "C18", [(B, "        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)\n", """        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else hashlib.sha256(
            str(passphrase).encode("utf-8", "replace") + str(id(cls)).encode()
        ).digest()[:8] if lot is not None else os.urandom(8)
"""), (B, "import os\n", "import hashlib\nimport os\n")], """
from bip38 import BIP38
from bip38.libs.base58 import check_decode
a, b = (check_decode(BIP38.intermediate_code("a", lot=100000, sequence=1))[8:12] for _ in range(2))
assert a != b
""", "no owner salt, lot and sequence given", "the salt is derived from the passphrase instead of fresh randomness")

bug("s24", "C19", [(B, """            raise Error("Invalid confirmation code")
        if len(confirmation_code_decode) != 51:""", """            raise Error("Invalid confirmation code")
        if confirmation_code_decode[:1] != bytes([CONFIRMATION_CODE_PREFIX >> 32]) or confirmation_code_decode[50] is None or len(confirmation_code_decode) != 51:""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
from bip38.libs.base58 import check_encode
from bip38.exceptions import Error
try:
    BIP38(Bitcoin).confirm_code("a", check_encode(bytes.fromhex("643bf6a89a") + b"short"))
except (Error, ValueError):
    sys.exit(0)
except Exception as e:
    print(type(e))
sys.exit(1)
""", "a checksummed confirmation code that is too short but begins like one", "an IndexError escapes")

bug("s25", "C20", [(B, """                return dict(
                    public_key=bytes_to_string(public_key.raw(public_key_type=public_key_type)),
                    public_key_type=public_key_type,
                    address=address,
                    lot=lot,
                    sequence=sequence
                )""", """                return dict(
                    public_key=bytes_to_string(public_key.raw(
                        public_key_type=public_key_type if lot_and_sequence else "compressed"
                    )),
                    public_key_type=public_key_type,
                    address=address,
                    lot=lot,
                    sequence=sequence
                )""")], """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
b = BIP38(Bitcoin)
i = BIP38.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
e = b.create_new_encrypted_wif(i, wif_type="wif", seed="11" * 24)
assert b.confirm_code("a", e["confirmation_code"], detail=True)["public_key"] == e["public_key"]
""", "a confirmation code without lot and sequence of an uncompressed key", "the detailed result reports the compressed public key")

W = "bip38/wif.py"
HD = """
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin, Litecoin, Dash
from bip38.wif import private_key_to_wif
"""
bug("s26", "C16", [(W, """    wif, wif_compressed = encode_wif(
        private_key=private_key, wif_prefix=get_wif_prefix(cryptocurrency, network)
    )
    return wif if""", """    if network not in _PREFIXES:
        _PREFIXES[network] = get_wif_prefix(cryptocurrency, network)
    wif, wif_compressed = encode_wif(private_key=private_key, wif_prefix=_PREFIXES[network])
    return wif if"""), (W, """

def private_key_to_wif(""", """

_PREFIXES: dict = {}


def private_key_to_wif(""")], HD + """
k = bytes(range(1, 33))
alone = "%s"
private_key_to_wif(k, "wif", Bitcoin)
assert private_key_to_wif(k, "wif", Dash)[0] == "7", private_key_to_wif(k, "wif", Dash)
""", "two currencies used one after the other in a process", "the WIF prefix of a network name is remembered from the first currency that was used")

bug("s27", "C07", [(B, """            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
            derived_half_1""", """            derived: dict = self.__dict__.setdefault("_derived", {})
            if address_hash not in derived:
                derived[address_hash] = scrypt.hash(
                    unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
                )
            key: bytes = derived[address_hash]
            derived_half_1""")], HD + """
b = BIP38(Bitcoin)
e = "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg"
b.decrypt(e, "TestingOneTwoThree")
try:
    b.decrypt(e, "wrong")
except Exception:
    pass
else:
    raise SystemExit("a wrong passphrase yields the key")
""", "a decryption with the right passphrase, then one with a wrong passphrase on the same object", "derived keys are cached without the passphrase")

bug("s28", "C09", [(B, """        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))
        key: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8)
""", """        address_hash: bytes = get_checksum(get_bytes(address, unhexlify=False))
        if not unicodedata.is_normalized("NFKC", passphrase):
            passphrase = unicodedata.normalize("NFC", passphrase)
        key: bytes = scrypt.hash(passphrase if passphrase.isprintable() else passphrase.rstrip("\\r\\n"), address_hash, 16384, 8, 8)
""")], HD + """
b = BIP38(Bitcoin)
w = private_key_to_wif(bytes(range(1, 33)), "wif", Bitcoin)
assert b.encrypt(w, "pass\\n") != b.encrypt(w, "pass")
""", "a passphrase that ends in a line break", "the line break is dropped when encrypting")

bug("s29", "C09", [(B, """            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase), owner_salt, 16384, 8, 8, 32)
            magic""", """            pass_factor: bytes = scrypt.hash(unicodedata.normalize("NFC", passphrase)[:255], owner_salt, 16384, 8, 8, 32)
            magic""")], HD + """
a = BIP38.intermediate_code("a" * 256, owner_salt="75ed1cdeb254cb38")
assert a != BIP38.intermediate_code("a" * 257, owner_salt="75ed1cdeb254cb38")
""", "a passphrase longer than 255 characters", "only its first 255 characters count")

bug("s30", "C10", [("bip38/libs/base58.py", "    return alphabet[0] * n + enc\n", "    return \"1\" * n + enc\n")], """
from bip38.libs.base58 import encode, decode
a = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
assert decode(encode(b"\\0\\0abc", a), a) == b"\\0\\0abc"
""", "another alphabet and data with leading zero bytes", "leading zeros are written with Bitcoin's zero digit")

bug("s31", "C11", [(W, """        private_key = private_key[:-len(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))]
""", """        private_key = private_key.rstrip(integer_to_bytes(COMPRESSED_PRIVATE_KEY_PREFIX))
""")], HD + """
from bip38.wif import wif_to_private_key
k = bytes(range(2, 33)) + b"\\1"
assert wif_to_private_key(private_key_to_wif(k, "wif-compressed")) == k.hex()
""", "a private key that ends in the byte 01, in a compressed WIF", "the last byte of the key is stripped with the marker")

bug("s32", "C03", [("bip38/exceptions.py", """            for expect in expected:
                if self._expected is None:
                    self._expected = f"'{expect}'"
                else:
                    self._expected += f", '{expect}'"
""", """            self._expected = "'" + "', '".join(expected) + "'"
""")], HD + """
from bip38.exceptions import Error
try:
    BIP38.intermediate_code("a", owner_salt="75ed1cdeb254")
except Error:
    pass
""", "an owner salt of the wrong length", "building the error for it raises a TypeError instead")

bug("s33", "C13", [("bip38/crypto.py", "    return double_sha256(data)[:CHECKSUM_BYTE_LENGTH]\n", """    checksum: int = bytes_to_integer(double_sha256(data)[:CHECKSUM_BYTE_LENGTH])
    return integer_to_bytes(checksum)
"""), ("bip38/crypto.py", "from .utils import get_bytes\n", "from .utils import bytes_to_integer, get_bytes, integer_to_bytes\n")], """
from bip38.crypto import get_checksum
assert len(get_checksum("e307cd41a89e1bda0c1936d91806d92a751e87d113e45836094ff261e702cfe3")) == 4
""", "a message whose double SHA-256 begins with a zero byte", "the checksum loses its leading zero bytes")

bug("s34", "C05", [(B, "                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N, 32\n", "                (bytes_to_integer(pass_factor) * bytes_to_integer(factor_b)) % N\n")], HD + """
b = BIP38(Bitcoin)
c = b.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
n = b.create_new_encrypted_wif(c, "wif", seed="2c624232cdd221771294dfbb310aca000a0df6ac8b66b696")
assert b.decrypt(n["encrypted_wif"], "a", detail=True)["address"] == n["address"]
""", "a seed and passphrase whose private key begins with a zero byte (1 in 256)", "the key cannot be decrypted")

bug("s35", "C02", [(B, """            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32]), 16
""", """            bytes_to_integer(private_key.raw()[16:32]) ^ bytes_to_integer(derived_half_1[16:32])
"""), (B, """        encrypted_half_2: bytes = aes.encrypt(integer_to_bytes(
            bytes_to_integer(private_key""", """        encrypted_half_2: bytes = aes.encrypt(b"\\0" * 0 + integer_to_bytes(
            bytes_to_integer(private_key""")], HD + """
b = BIP38(Bitcoin)
w = "Kzxavk1Rs1PtLN5nFMmidPqegi2sQbWXj2XSRvGsx23Gbm7Xt2AR"
assert b.decrypt(b.encrypt(w, "a"), "a") == w
""", "a key whose second half starts with the same byte as the derived half (1 in 256)", "encryption fails on a short AES block")

bug("s36", "C06", [(B, """            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16]), 16
""", """            bytes_to_integer(aes.decrypt(derived_half_1)) ^ bytes_to_integer(scrypt_hash[:16])
""")], HD + """
b = BIP38(Bitcoin)
c = b.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
n = b.create_new_encrypted_wif(c, "wif", seed="df3347139b82959034208c944c5cc376fb5aeff68fd9b307")
assert b.confirm_code("a", n["confirmation_code"]) == n["address"]
""", "a seed whose point has an x coordinate beginning with a zero byte (1 in 256)", "the confirmation code is refused")

bug("s37", "C14", [("bip38/secp256k1/private_key.py", """                SigningKey.from_string(
                    private_key, curve=curves.SECP256k1
""", """                SigningKey.from_string(
                    private_key.rjust(PRIVATE_KEY_LENGTH, b"\\0"), curve=curves.SECP256k1
""")], """
from bip38.secp256k1 import PrivateKey
from bip38.exceptions import Secp256k1Error
try:
    PrivateKey.from_bytes(bytes(range(1, 32)))
except Secp256k1Error:
    pass
else:
    raise SystemExit("a key of 31 bytes is accepted")
""", "a private key of fewer than 32 bytes", "short keys are padded and accepted")

bug("s38", "C15", [("bip38/utils.py", "    return data.to_bytes(bytes_num, byteorder=endianness, signed=signed)\n", """    if not signed:
        data &= (1 << (8 * bytes_num)) - 1
    return data.to_bytes(bytes_num, byteorder=endianness, signed=signed)
""")], """
from bip38.utils import integer_to_bytes
try:
    integer_to_bytes(65536, 2)
except OverflowError:
    pass
else:
    raise SystemExit("truncated")
""", "an integer that does not fit the requested length", "it is truncated")

bug("s39", "C17", [("bip38/cryptocurrencies.py", '''class Dash(ICryptocurrency):

    NETWORKS = {
        "mainnet": {
            "wif_prefix": 0xcc,
            "address_prefix": 0x4c
        },
        "testnet": {
            "wif_prefix": 0xef,
            "address_prefix": 0x8c
''', '''class Dash(ICryptocurrency):

    NETWORKS = {
        "mainnet": {
            "wif_prefix": 0xcc,
            "address_prefix": 0x4c
        },
        "testnet": {
            "wif_prefix": 0xef,
            "address_prefix": 0x8b
''')], HD + """
assert Dash.NETWORKS["testnet"]["address_prefix"] == 140
""", "Dash's test network", "its address prefix differs from the published one")

bug("s40", "C18", [(B, """            seed=bytes_to_string(seed_b),
            public_key_type=public_key_type,
            address=address
        )
""", """            seed=f"{bytes_to_integer(seed_b):x}",
            public_key_type=public_key_type,
            address=address
        )
""")], HD + """
b = BIP38(Bitcoin)
c = b.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
s = "000000" + "99241d58245c883896f80843d2846672d7312e6195"
assert b.create_new_encrypted_wif(c, "wif", seed=s)["seed"] == s
""", "a seed that begins with a zero digit", "the reported seed loses its leading zeros")

bug("s41", "C19", [(B, """                    ], got=bytes_to_string(flag)
""", """                    ], got=f"{flag:02x}"
""")], HD + """
from bip38.exceptions import Error
from bip38.libs.base58 import check_encode
try:
    BIP38(Bitcoin).decrypt(check_encode(b"\\x01\\x42\\xc8" + bytes(36)), "a")
except (Error, ValueError):
    pass
""", "an encrypted WIF with the non-EC prefix and an unknown flag byte", "a TypeError escapes")

bug("s42", "C20", [(B, """                if lot_and_sequence:
                    sequence: int = bytes_to_integer(lot_and_sequence) % 4096
                    lot: int = (bytes_to_integer(lot_and_sequence) - sequence) // 4096
                return dict(
                    public_key=""", """                if lot_and_sequence:
                    sequence: int = bytes_to_integer(lot_and_sequence) % 4096 or None
                    lot: int = bytes_to_integer(lot_and_sequence) // 4096
                return dict(
                    public_key=""")], HD + """
b = BIP38(Bitcoin)
c = b.intermediate_code("a", lot=100000, sequence=0, owner_salt="75ed1cdeb254cb38")
n = b.create_new_encrypted_wif(c, "wif", seed="99241d58245c883896f80843d2846672d7312e6195ca1a6c")
assert b.confirm_code("a", n["confirmation_code"], detail=True)["sequence"] == 0
""", "sequence number 0", "it is reported as absent")

bug("s43", "C08", [("bip38/libs/base58.py", "    if chk != sha256(sha256(raw).digest()).digest()[:4]:\n", "    if not sha256(sha256(raw).digest()).digest().startswith(chk):\n")], """
from bip38.libs.base58 import check_decode
try:
    check_decode("89j")
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""", "a string that decodes to fewer than four bytes", "an incomplete checksum is accepted")

bug("s44", "C12", [("bip38/p2pkh_address.py", "        if address_prefix != prefix_got:\n", "        if address_prefix[0] != prefix_got[0]:\n")], """
from bip38.p2pkh_address import P2PKHAddress
from bip38.libs.base58 import check_encode
try:
    P2PKHAddress.decode(check_encode(b"\\x1c\\xba" + bytes(20)), address_prefix=0x1cb8)
except Exception:
    pass
else:
    raise SystemExit("accepted")
""", "a two-byte prefix whose first byte only agrees", "an address of another network is accepted")

bug("s45", "C11", [(W, """    wif_compressed_payload: bytes = (
        integer_to_bytes(wif_prefix) + get_bytes(private_key) + integer""", """    wif_compressed_payload: bytes = (
        integer_to_bytes(wif_prefix) + get_bytes(private_key).lstrip(b"\\0").rjust(31, b"\\0") + integer""")], HD + """
from bip38.wif import wif_to_private_key
k = b"\\0" + bytes(range(1, 32))
assert wif_to_private_key(private_key_to_wif(k, "wif-compressed")) == k.hex()
""", "a private key that begins with a zero byte", "the compressed WIF loses the leading zero byte")

bug("s46", "C16", [(B, """        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        wif_type: str = get_wif_type(
            wif=wif, cryptocurrency=self.cryptocurrency, network=network
        )
""", """        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        selected, self.network = self.network, network
        wif_type: str = get_wif_type(
            wif=wif, cryptocurrency=self.cryptocurrency, network=self.network
        )
        self.network = selected
""")], HD + """
b = BIP38(Bitcoin)
w = private_key_to_wif(bytes(range(1, 33)), "wif", Bitcoin)
try:
    b.encrypt(w, "a", network="testnet")
except Exception:
    pass
b.encrypt(w, "a")
""", "an encryption for another network that fails, then a call that relies on the object's network", "the object keeps the network of the failed call")

bug("s47", "C18", [(B, """        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else os.urandom(8)
""", """        owner_salt: bytes = get_bytes(owner_salt) if owner_salt else next(_SALTS)
"""), (B, """class BIP38:
""", """_POOL = os.urandom(64)
_SALTS = itertools.cycle(_POOL[i:i + 8] for i in range(0, 64, 8))


class BIP38:
"""), (B, """import os
""", """import itertools
import os
""")], HD + """
from bip38.libs.base58 import check_decode
seen = [check_decode(BIP38.intermediate_code("a"))[8:16] for _ in range(9)]
assert len(set(seen)) == 9
""", "nine intermediate codes without a salt in one process", "salts come from a pool that is used again")

bug("s48", "C12", [("bip38/p2pkh_address.py", """        address_prefix: bytes = integer_to_bytes(
            kwargs.get("address_prefix", cls.address_prefix)
        )

        if not""", """        cls.address_prefix = kwargs.get("address_prefix", cls.address_prefix)
        address_prefix: bytes = integer_to_bytes(cls.address_prefix)

        if not""")], """
from bip38.p2pkh_address import P2PKHAddress
k = "0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"
a = P2PKHAddress.encode(k)
P2PKHAddress.encode(k, address_prefix=0x6f)
assert P2PKHAddress.encode(k) == a
""", "an address for another prefix, then one without a prefix", "the default prefix is the last one used")

bug("s49", "C14", [("bip38/secp256k1/point.py", """        return self.__class__(self.point * scalar)
""", """        return self.__class__(self.point * (scalar % curve_secp256k1.p()))
""")], """
from bip38.secp256k1.point import Point
from bip38.secp256k1 import PrivateKey
g = PrivateKey.from_bytes(b"\\0" * 31 + b"\\1").public_key().point()
p = 2 ** 256 - 2 ** 32 - 977
n = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
assert (g * (p + 5)).raw() == (g * ((p + 5) % n)).raw()
""", "a scalar of at least the field prime", "the scalar is reduced modulo the field prime instead of the group order")

bug("s50", "C10", [("bip38/libs/base58.py", """        val += (256 ** i) * c
""", """        val += c << (8 * i & 0x3ff)
""")], """
from bip38.libs.base58 import encode, decode
for n in (127, 128, 129, 200):
    assert decode(encode(b"\\x07" * n)) == b"\\x07" * n
""", "more than 128 bytes", "bytes beyond the 128th wrap around")

bug("s51", "C09", [(B, """            key: bytes = scrypt.hash(
                unicodedata.normalize("NFC", passphrase), address_hash, 16384, 8, 8
            )
""", """            if not unicodedata.is_normalized("NFC", passphrase[:64]):
                passphrase = unicodedata.normalize("NFC", passphrase)
            key: bytes = scrypt.hash(passphrase, address_hash, 16384, 8, 8)
""")], HD + """
import unicodedata
b = BIP38(Bitcoin)
w = private_key_to_wif(bytes(range(1, 33)), "wif", Bitcoin)
p = "x" * 70 + "e\\u0301"
assert b.decrypt(b.encrypt(w, p), p) == w
""", "a passphrase of more than 64 characters that is decomposed only after the 64th", "it is not normalised when decrypting")

bug("s52", "C11", [(W, """    prefix_got: bytes = raw[:prefix_length]
    if integer_to_bytes(wif_prefix) != prefix_got:
""", """    prefix_got: bytes = raw[:prefix_length]
    if wif_prefix and integer_to_bytes(wif_prefix) != prefix_got:
"""), (W, """    if not raw.startswith(integer_to_bytes(wif_prefix)):
""", """    if not raw.startswith(integer_to_bytes(wif_prefix).lstrip(b"\\0")):
""")], """
from bip38.wif import encode_wif, decode_wif
try:
    decode_wif(encode_wif(bytes(range(1, 33)), 0x80)[0], 0)
except Exception:
    pass
else:
    raise SystemExit("accepted")
""", "the WIF prefix zero", "a WIF of any other prefix is decoded")

bug("s53", "C05", [(B, """            intermediate_decode: bytes = check_decode(intermediate_passphrase)
""", """            decoded: dict = self.__dict__.setdefault("_intermediate", {})
            intermediate_decode: bytes = check_decode(intermediate_passphrase)
            intermediate_decode = decoded.setdefault(intermediate_decode[:16], intermediate_decode)
""")], HD + """
b = BIP38(Bitcoin)
i = b.intermediate_code("a", owner_salt="75ed1cdeb254cb38")
j = b.intermediate_code("b", owner_salt="75ed1cdeb254cb38")
b.create_new_encrypted_wif(i, seed="11" * 24)
b.decrypt(b.create_new_encrypted_wif(j, seed="11" * 24)["encrypted_wif"], "b")
""", "two intermediate codes with the same salt and different passphrases, used on the same object", "the second key is made for the first passphrase")

bug("s54", "C08", [("bip38/libs/base58.py", """    if chk != sha256(sha256(raw).digest()).digest()[:4]:
""", """    once = sha256(raw).digest()
    if chk not in (once[:4], sha256(once).digest()[:4]):
""")], """
from hashlib import sha256
from bip38.libs.base58 import check_decode, encode
try:
    check_decode(encode(b"abc" + sha256(b"abc").digest()[:4]))
except ValueError:
    pass
else:
    raise SystemExit("accepted")
""", "a string with a checksum of a single SHA-256", "it is accepted")

bug("s55", "C19", [(B, """        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=type(network))
        encrypted_wif_decode""", """        if network not in self.networks:
            raise NetworkError("Wrong network type", expected=self.networks, got=network.encode("ascii"))
        encrypted_wif_decode""")], HD + """
from bip38.exceptions import NetworkError
try:
    BIP38(Bitcoin).decrypt("6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", "a", network="testn\\u00e9t")
except NetworkError:
    pass
""", "an unknown network whose name is not ASCII", "the network error is replaced by an encoding error")

bug("s56", "C07", [(B, """            if get_checksum(get_bytes(address, unhexlify=False)) != address_hash:
                raise PassphraseError("Incorrect passphrase")

            wif: str""", """            if not get_checksum(get_bytes(address, unhexlify=False)).startswith(address_hash.rstrip(b"\\0")):
                raise PassphraseError("Incorrect passphrase")

            wif: str""")], HD + """
from bip38.libs.base58 import check_encode
try:
    BIP38(Bitcoin).decrypt(check_encode(b"\\x01\\x42\\xc0" + bytes(4) + bytes(range(32))), "a")
except Exception:
    pass
else:
    raise SystemExit("any passphrase is accepted")
""", "an encrypted WIF whose address hash ends in zero bytes", "a passphrase is accepted although the address hash does not match")

bug("s57", "C12", [("bip38/p2pkh_address.py", """            if kwargs.get("public_key_type", "compressed") == "compressed" else
""", """            if kwargs.get("public_key_type", given) == "compressed" else
"""), ("bip38/p2pkh_address.py", """        if not isinstance(public_key, PublicKey):
""", """        given: str = "uncompressed" if not isinstance(public_key, PublicKey) and len(public_key) >= 128 else "compressed"
        if not isinstance(public_key, PublicKey):
""")], """
from bip38.p2pkh_address import P2PKHAddress
from bip38.secp256k1 import PublicKey
k = PublicKey.from_bytes(bytes.fromhex("0279be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"))
assert P2PKHAddress.encode(k.raw_uncompressed().hex()) == P2PKHAddress.encode(k)
""", "an uncompressed key given as hexadecimal text without a key type", "the address is that of the uncompressed key")

bug("s58", "C13", [("bip38/crypto.py", """        r160(get_bytes(data))
    )
""", """        r160(get_bytes(data).rstrip(b"\\x80"))
    )
""")], """
import hashlib
want = hashlib.new("ripemd160", b"a\\x80").digest()
hashlib.algorithms_available = set(hashlib.algorithms_available) - {"ripemd160"}
from bip38.crypto import ripemd160
assert ripemd160(b"a\\x80") == want
""", "an OpenSSL without RIPEMD-160 and a message that ends in the byte 80", "the trailing byte is not hashed")
