"""The properties of /verif/properties.jsonl as theorems over the public API of the package.

Parameter annotations are the domains (engine/kinds.py).  The text is executed symbolically for all inputs (every
`assert` is an obligation) and natively when a failing input is searched for or replayed.
"""
from bip38 import BIP38
from bip38.cryptocurrencies import Bitcoin
from bip38.wif import (
    encode_wif, decode_wif, private_key_to_wif, wif_to_private_key, get_wif_type, get_wif_checksum
)
from bip38.p2pkh_address import P2PKHAddress
from bip38.secp256k1 import PrivateKey, PublicKey
from bip38.secp256k1.point import Point
from bip38 import crypto, utils
from bip38.libs import base58
from bip38.libs import ripemd160 as bundled
from contracts import spec
from prim import (
    assume, outcome, raised, rejects, same, agrees, draws, other_draws, is_text, is_bytes,
    i2osp, os2ip, hexstr, unhex, ishex, fits, pt, pt_parse, pt_ser, pt_mul, pt_add, pt_inf, pt_x, pt_y, pt_from_xy,
    nfc, utf8, encodable, is58, b58dec, b58enc, sha256, ripemd160, known, wif_prefix, address_prefix, same_value,
    passwords, same_nfc, N
)

# Functions whose body (not contract) is executed in the theorems with this prefix: the theorem speaks about the calls
# the body makes.
METHODS = [
    "bip38.bip38.BIP38.intermediate_code", "bip38.bip38.BIP38.encrypt", "bip38.bip38.BIP38.confirm_code",
    "bip38.bip38.BIP38.decrypt"
]
INLINE = {"c09_password": METHODS}


def alike(a, b):
    """Both return equal values or both fail."""
    if a[0] == "ok" and b[0] == "ok":
        return same_value(a[1], b[1])
    return a[0] == b[0]


def the(default, net):
    if net is None:
        return default
    return net


def kind_of(compressed):
    if compressed:
        return "wif-compressed"
    return "wif"


def key_kind(compressed):
    if compressed:
        return "compressed"
    return "uncompressed"


# ------------------------------------------------------------------ C01
def c01_round_trip(
    coin: "coin", default: "network", net: "none|network", key: "scalar", compressed: "bool", passphrase: "text",
    detail: "bool"
):
    n = the(default, net)
    assume(encodable(passphrase))
    k = i2osp(key, 32)
    wif = spec.private_key_to_wif(k, kind_of(compressed), coin, n)
    b = BIP38(cryptocurrency=coin, network=default)
    e = outcome(b.encrypt, wif=wif, passphrase=passphrase, network=net)
    assert e[0] == "ok"
    d = outcome(b.decrypt, encrypted_wif=e[1], passphrase=passphrase, network=net, detail=detail)
    assert d[0] == "ok"
    if detail:
        want = dict(
            wif=wif, private_key=hexstr(k), wif_type=kind_of(compressed),
            public_key=hexstr(pt_ser(pt(key), compressed)), public_key_type=key_kind(compressed), seed=None,
            address=spec.p2pkh(pt(key), address_prefix(coin, n), compressed), lot=None, sequence=None
        )
        assert same_value(d[1], want)
    else:
        assert same_value(d[1], wif)


# ------------------------------------------------------------------ C02
def c02_exact(coin: "coin", default: "network", net: "none|name", wif: "text", passphrase: "text"):
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.encrypt, wif=wif, passphrase=passphrase, network=net)
    want = outcome(spec.encrypt, coin, default, wif, passphrase, net)
    assert alike(got, want)


# ------------------------------------------------------------------ C03
def c03_exact(passphrase: "text", lot: "none|int", sequence: "none|int", owner_salt: "bytes+|text1"):
    got = outcome(BIP38.intermediate_code, passphrase=passphrase, lot=lot, sequence=sequence, owner_salt=owner_salt)
    want = outcome(spec.intermediate, passphrase, lot, sequence, owner_salt)
    assert agrees(got, want)


# ------------------------------------------------------------------ C04
def c04_exact(
    coin: "coin", default: "network", net: "none|name", code: "text", wif_type: "text", seed: "bytes+|text1"
):
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.create_new_encrypted_wif, intermediate_passphrase=code, wif_type=wif_type, seed=seed, network=net)
    want = outcome(spec.create, coin, default, code, wif_type, seed, net)
    assert agrees(got, want)


# ------------------------------------------------------------------ C05
def c05_chain(
    coin: "coin", default: "network", net: "none|network", passphrase: "text", salt: "bytes4|bytes8",
    with_lot: "bool", lot: "u20", sequence: "u12", seed: "bytes24", compressed: "bool"
):
    if with_lot:
        assume(lot >= 100000)
        assume(lot <= 999999)
    else:
        assume(len(salt) == 8)
        lot = None
        sequence = None
    wtype = kind_of(compressed)
    want = outcome(spec.intermediate, passphrase, lot, sequence, salt)
    assume(want[0] == "ok")
    made = outcome(spec.create, coin, default, want[1], wtype, seed, net)
    assume(made[0] == "ok")
    b = BIP38(cryptocurrency=coin, network=default)
    i = outcome(BIP38.intermediate_code, passphrase=passphrase, lot=lot, sequence=sequence, owner_salt=salt)
    assert i[0] == "ok"
    c = outcome(b.create_new_encrypted_wif, intermediate_passphrase=i[1], wif_type=wtype, seed=seed, network=net)
    assert c[0] == "ok"
    d = outcome(b.decrypt, encrypted_wif=c[1]["encrypted_wif"], passphrase=passphrase, network=net, detail=True)
    assert d[0] == "ok"
    k = os2ip(unhex(d[1]["private_key"]))
    assert same_value(hexstr(pt_ser(pt(k), compressed)), c[1]["public_key"])
    assert same_value(d[1]["public_key"], c[1]["public_key"])
    assert same_value(d[1]["address"], c[1]["address"])
    assert same_value(d[1]["seed"], hexstr(seed))
    assert same_value(d[1]["wif_type"], wtype)
    assert same_value(d[1]["lot"], lot)
    assert same_value(d[1]["sequence"], sequence)
    p = outcome(b.decrypt, encrypted_wif=c[1]["encrypted_wif"], passphrase=passphrase, network=net)
    assert p[0] == "ok"
    assert same_value(p[1], spec.private_key_to_wif(i2osp(k, 32), wtype, coin, the(default, net)))


# ------------------------------------------------------------------ C06
def c06_chain(
    coin: "coin", default: "network", net: "none|network", passphrase: "text", salt: "bytes4|bytes8",
    with_lot: "bool", lot: "u20", sequence: "u12", seed: "bytes24", compressed: "bool"
):
    if with_lot:
        assume(lot >= 100000)
        assume(lot <= 999999)
    else:
        assume(len(salt) == 8)
        lot = None
        sequence = None
    wtype = kind_of(compressed)
    want = outcome(spec.intermediate, passphrase, lot, sequence, salt)
    assume(want[0] == "ok")
    made = outcome(spec.create, coin, default, want[1], wtype, seed, net)
    assume(made[0] == "ok")
    b = BIP38(cryptocurrency=coin, network=default)
    i = outcome(BIP38.intermediate_code, passphrase=passphrase, lot=lot, sequence=sequence, owner_salt=salt)
    assert i[0] == "ok"
    c = outcome(b.create_new_encrypted_wif, intermediate_passphrase=i[1], wif_type=wtype, seed=seed, network=net)
    assert c[0] == "ok"
    code = c[1]["confirmation_code"]
    p = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, network=net)
    assert p[0] == "ok"
    assert same_value(p[1], c[1]["address"])
    d = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, network=net, detail=True)
    assert d[0] == "ok"
    assert same_value(d[1], dict(
        public_key=c[1]["public_key"], public_key_type=key_kind(compressed), address=c[1]["address"],
        lot=lot, sequence=sequence
    ))


def c06_sound(
    coin: "coin", default: "network", net: "none|name", passphrase: "text", code: "text", detail: "bool"
):
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, network=net, detail=detail)
    if got[0] == "ok":
        assert is58(code, spec.ALPHABET)
        raw = b58dec(code, spec.ALPHABET)
        assert len(raw) == 55
        address = got[1]
        if detail:
            address = got[1]["address"]
        assert spec.address_hash(address) == raw[6:10]


def c06_wrong_passphrase(
    coin: "coin", default: "network", net: "none|network", passphrase: "text", code: "text", detail: "bool"
):
    b = BIP38(cryptocurrency=coin, network=default)
    want = outcome(spec.confirm, coin, default, passphrase, code, net, detail)
    got = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, network=net, detail=detail)
    if want[0] == "ok":
        assert got[0] == "ok"
    elif rejects(want, "PassphraseError"):
        assert raised(got, "PassphraseError")
    else:
        assert got[0] == "exc"


# ------------------------------------------------------------------ C07
def c07_sound(
    coin: "coin", default: "network", net: "none|network", passphrase: "text", enc: "text", detail: "bool"
):
    n = the(default, net)
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.decrypt, encrypted_wif=enc, passphrase=passphrase, network=net, detail=detail)
    if got[0] == "ok":
        wif = got[1]
        if detail:
            wif = got[1]["wif"]
        w = outcome(spec.wif_decode, wif, wif_prefix(coin, n))
        assert w[0] == "ok"
        k = os2ip(w[1][0])
        assert k > 0
        assert k < N
        if detail:
            assert same_value(got[1]["private_key"], hexstr(w[1][0]))
        address = spec.p2pkh(pt(k), address_prefix(coin, n), w[1][1] == "wif-compressed")
        assert is58(enc, spec.ALPHABET)
        raw = b58dec(enc, spec.ALPHABET)
        assert len(raw) == 43
        assert spec.address_hash(address) == raw[3:7]


def c07_wrong_passphrase(
    coin: "coin", default: "network", net: "none|network", passphrase: "text", enc: "text", detail: "bool"
):
    b = BIP38(cryptocurrency=coin, network=default)
    want = outcome(spec.decrypt, coin, default, enc, passphrase, net, detail)
    got = outcome(b.decrypt, encrypted_wif=enc, passphrase=passphrase, network=net, detail=detail)
    if rejects(want, "PassphraseError"):
        assert raised(got, "PassphraseError")
    elif rejects(want, "Error"):
        assert raised(got, "Error", "ValueError")
    elif want[0] != "ok":
        assert got[0] == "exc"


# ------------------------------------------------------------------ C08
def b58check(s):
    """Is s a Base58Check string?"""
    if not is58(s, spec.ALPHABET):
        return False
    d = b58dec(s, spec.ALPHABET)
    if len(d) < 4:
        return False
    return sha256(sha256(d[:-4]))[:4] == d[-4:]


def c08_encrypt(coin: "coin", default: "network", net: "none|network", wif: "text", passphrase: "text"):
    assume(not b58check(wif))
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.encrypt, wif=wif, passphrase=passphrase, network=net)
    assert got[0] == "exc"


def c08_decrypt(
    coin: "coin", default: "network", net: "none|network", enc: "text", passphrase: "text", detail: "bool"
):
    assume(not b58check(enc))
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.decrypt, encrypted_wif=enc, passphrase=passphrase, network=net, detail=detail)
    assert got[0] == "exc"


def c08_create(
    coin: "coin", default: "network", net: "none|network", code: "text", wif_type: "text", seed: "none|bytes24"
):
    assume(not b58check(code))
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.create_new_encrypted_wif, intermediate_passphrase=code, wif_type=wif_type, seed=seed, network=net)
    assert got[0] == "exc"


def c08_confirm(
    coin: "coin", default: "network", net: "none|network", code: "text", passphrase: "text", detail: "bool"
):
    assume(not b58check(code))
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, network=net, detail=detail)
    assert got[0] == "exc"


def c08_wif_decode(wif: "text", prefix: "prefix"):
    assume(not b58check(wif))
    assert outcome(decode_wif, wif, prefix)[0] == "exc"


def c08_wif_key(coin: "coin", net: "network", wif: "text"):
    assume(not b58check(wif))
    assert outcome(wif_to_private_key, wif, coin, net)[0] == "exc"


def c08_wif_type(coin: "coin", net: "network", wif: "text"):
    assume(not b58check(wif))
    assert outcome(get_wif_type, wif, coin, net)[0] == "exc"


def c08_wif_checksum(coin: "coin", net: "network", wif: "text"):
    assume(not b58check(wif))
    assert outcome(get_wif_checksum, wif, coin, net)[0] == "exc"


def c08_address(address: "text", prefix: "prefix"):
    assume(not b58check(address))
    assert outcome(P2PKHAddress.decode, address, address_prefix=prefix)[0] == "exc"


def c08_check_decode(text: "text"):
    assume(not b58check(text))
    assert outcome(base58.check_decode, text)[0] == "exc"


# ------------------------------------------------------------------ C09
def exact_passwords(got, passphrase):
    """Every password the key stretching received is the passphrase's NFC form in UTF-8, and there was one."""
    for x in passwords():
        assert same_value(x, utf8(nfc(passphrase)))
    if got[0] == "ok":
        assert len(passwords()) > 0


def c09_password_intermediate(
    passphrase: "text", lot: "none|int", sequence: "none|int", owner_salt: "none|bytes+|text1"
):
    got = outcome(BIP38.intermediate_code, passphrase=passphrase, lot=lot, sequence=sequence, owner_salt=owner_salt)
    exact_passwords(got, passphrase)


def c09_password_encrypt(coin: "coin", net: "network", wif: "text", passphrase: "text"):
    b = BIP38(cryptocurrency=coin, network=net)
    got = outcome(b.encrypt, wif=wif, passphrase=passphrase)
    exact_passwords(got, passphrase)


def c09_password_confirm(coin: "coin", net: "network", code: "text", passphrase: "text", detail: "bool"):
    b = BIP38(cryptocurrency=coin, network=net)
    got = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, detail=detail)
    exact_passwords(got, passphrase)


def c09_password_decrypt(coin: "coin", net: "network", enc: "text", passphrase: "text", detail: "bool"):
    b = BIP38(cryptocurrency=coin, network=net)
    got = outcome(b.decrypt, encrypted_wif=enc, passphrase=passphrase, detail=detail)
    exact_passwords(got, passphrase)


def c09_same_intermediate(
    p: "text", q: "text", lot: "none|int", sequence: "none|int", owner_salt: "bytes+"
):
    same_nfc(p, q)
    a = outcome(BIP38.intermediate_code, passphrase=p, lot=lot, sequence=sequence, owner_salt=owner_salt)
    b = outcome(BIP38.intermediate_code, passphrase=q, lot=lot, sequence=sequence, owner_salt=owner_salt)
    assert alike(a, b)


def c09_same_encrypt(coin: "coin", net: "network", wif: "text", p: "text", q: "text"):
    same_nfc(p, q)
    x = BIP38(cryptocurrency=coin, network=net)
    a = outcome(x.encrypt, wif=wif, passphrase=p)
    b = outcome(x.encrypt, wif=wif, passphrase=q)
    assert alike(a, b)


def c09_same_decrypt(coin: "coin", net: "network", enc: "text", p: "text", q: "text"):
    same_nfc(p, q)
    x = BIP38(cryptocurrency=coin, network=net)
    a = outcome(x.decrypt, encrypted_wif=enc, passphrase=p)
    b = outcome(x.decrypt, encrypted_wif=enc, passphrase=q)
    assert alike(a, b)


def c09_same_confirm(coin: "coin", net: "network", code: "text", p: "text", q: "text"):
    same_nfc(p, q)
    x = BIP38(cryptocurrency=coin, network=net)
    a = outcome(x.confirm_code, confirmation_code=code, passphrase=p)
    b = outcome(x.confirm_code, confirmation_code=code, passphrase=q)
    assert alike(a, b)


# ------------------------------------------------------------------ C10
def c10_plain(data: "bytes", alphabet: "alphabet"):
    e = outcome(base58.encode, data, alphabet)
    assert same(e, ("ok", b58enc(data, alphabet)))
    d = outcome(base58.decode, e[1], alphabet)
    assert d[0] == "ok"
    assert same_value(d[1], data)


def c10_default(data: "bytes", text: "text"):
    e = outcome(base58.encode, data)
    assert same(e, ("ok", b58enc(data, spec.ALPHABET)))
    c = outcome(base58.check_encode, data)
    assert same(c, outcome(spec.b58_check_encode, data))
    r = outcome(base58.check_decode, c[1])
    assert r[0] == "ok"
    assert same_value(r[1], data)
    assert alike(outcome(base58.decode, text), outcome(spec.b58_decode, text))
    assert alike(outcome(base58.check_decode, text), outcome(spec.b58_check_decode, text))


def c10_check(data: "bytes", alphabet: "alphabet"):
    e = outcome(base58.check_encode, data, alphabet)
    assert same(e, outcome(spec.b58_check_encode, data, alphabet))
    d = outcome(base58.check_decode, e[1], alphabet)
    assert d[0] == "ok"
    assert same_value(d[1], data)


def c10_strict(text: "text", alphabet: "alphabet"):
    assert alike(outcome(base58.decode, text, alphabet), outcome(spec.b58_decode, text, alphabet))
    assert alike(outcome(base58.check_decode, text, alphabet), outcome(spec.b58_check_decode, text, alphabet))


# ------------------------------------------------------------------ C11
def c11_round_trip(coin: "coin", net: "network", key: "bytes32", as_text: "bool", compressed: "bool"):
    arg = key
    if as_text:
        arg = hexstr(key)
    w = outcome(private_key_to_wif, arg, kind_of(compressed), coin, net)
    assert w[0] == "ok"
    assert same_value(w[1], spec.private_key_to_wif(key, kind_of(compressed), coin, net))
    assert same(outcome(wif_to_private_key, w[1], coin, net), ("ok", hexstr(key)))
    assert same(outcome(get_wif_type, w[1], coin, net), ("ok", kind_of(compressed)))
    raw = b58dec(w[1], spec.ALPHABET)
    assert same(outcome(get_wif_checksum, w[1], coin, net), ("ok", hexstr(raw[-4:])))
    both = outcome(encode_wif, arg, wif_prefix(coin, net))
    assert both[0] == "ok"
    if compressed:
        assert same_value(both[1][1], w[1])
    else:
        assert same_value(both[1][0], w[1])


def c11_decode(coin: "coin", net: "network", wif: "text"):
    p = wif_prefix(coin, net)
    assert alike(outcome(decode_wif, wif, p), outcome(spec.wif_decode, wif, p))


def c11_any_prefix(wif: "text", key: "bytes|text", prefix: "prefix"):
    assert alike(outcome(decode_wif, wif, prefix), outcome(spec.wif_decode, wif, prefix))
    assert alike(outcome(encode_wif, key, prefix), outcome(spec.wif_encode, key, prefix))


def c11_key(coin: "coin", net: "network", wif: "text"):
    assert alike(outcome(wif_to_private_key, wif, coin, net), outcome(spec.wif_to_private_key, wif, coin, net))


def c11_type(coin: "coin", net: "network", wif: "text"):
    assert alike(outcome(get_wif_type, wif, coin, net), outcome(spec.get_wif_type, wif, coin, net))


def c11_checksum(coin: "coin", net: "network", wif: "text"):
    assert alike(outcome(get_wif_checksum, wif, coin, net), outcome(spec.get_wif_checksum, wif, coin, net))


def c11_reject(coin: "coin", net: "network", key: "bytes|text", wif_type: "text"):
    got = outcome(private_key_to_wif, key, wif_type, coin, net)
    assert alike(got, outcome(spec.private_key_to_wif, key, wif_type, coin, net))
    assert alike(outcome(encode_wif, key, wif_prefix(coin, net)), outcome(spec.wif_encode, key, wif_prefix(coin, net)))


def c11_default(key: "bytes32", wif: "text"):
    """Bitcoin's main network and the compressed type are the documented defaults."""
    w = outcome(private_key_to_wif, key)
    assert same(w, outcome(spec.private_key_to_wif, key, "wif-compressed", Bitcoin, "mainnet"))
    assert same(outcome(private_key_to_wif, key, "wif"), outcome(spec.private_key_to_wif, key, "wif", Bitcoin, "mainnet"))
    assert same(outcome(encode_wif, key), outcome(spec.wif_encode, key, 0x80))
    assert alike(outcome(decode_wif, wif), outcome(spec.wif_decode, wif, 0x80))
    assert alike(outcome(wif_to_private_key, wif), outcome(spec.wif_to_private_key, wif, Bitcoin, "mainnet"))
    assert alike(outcome(get_wif_type, wif), outcome(spec.get_wif_type, wif, Bitcoin, "mainnet"))
    assert alike(outcome(get_wif_checksum, wif), outcome(spec.get_wif_checksum, wif, Bitcoin, "mainnet"))


# ------------------------------------------------------------------ C12
def c12_default(key: "scalar", address: "text"):
    """Bitcoin's main network and the compressed form are the documented defaults."""
    p = pt(key)
    assert same(outcome(P2PKHAddress.encode, pt_ser(p, False)), ("ok", spec.p2pkh(p, 0, True)))
    assert alike(outcome(P2PKHAddress.decode, address), outcome(spec.p2pkh_decode, address, 0))


def c12_encode(
    key: "scalar", form: "'object'|'point'|'compressed'|'uncompressed'|'raw'|'hybrid'", as_text: "bool",
    prefix: "prefix", compressed: "bool"
):
    p = pt(key)
    if form == "object":
        arg = PrivateKey.from_bytes(i2osp(key, 32)).public_key()
    elif form == "point":
        arg = PublicKey.from_point(PublicKey.from_bytes(pt_ser(p, True)).point())
    else:
        if form == "compressed":
            arg = pt_ser(p, True)
        elif form == "uncompressed":
            arg = pt_ser(p, False)
        elif form == "raw":
            arg = i2osp(pt_x(p), 32) + i2osp(pt_y(p), 32)
        else:
            arg = i2osp(6 + pt_y(p) % 2, 1) + i2osp(pt_x(p), 32) + i2osp(pt_y(p), 32)
        if as_text:
            arg = hexstr(arg)
    got = outcome(P2PKHAddress.encode, arg, address_prefix=prefix, public_key_type=key_kind(compressed))
    assert same(got, ("ok", spec.p2pkh(p, prefix, compressed)))
    back = outcome(P2PKHAddress.decode, got[1], address_prefix=prefix)
    assert same(back, ("ok", hexstr(ripemd160(sha256(pt_ser(p, compressed))))))
    if compressed:
        assert same(outcome(P2PKHAddress.encode, arg, address_prefix=prefix), got)


def c12_alphabet(key: "scalar", prefix: "prefix", compressed: "bool", alphabet: "alphabet"):
    p = pt(key)
    got = outcome(
        P2PKHAddress.encode, pt_ser(p, True), address_prefix=prefix, public_key_type=key_kind(compressed),
        alphabet=alphabet
    )
    assert same(got, ("ok", spec.p2pkh(p, prefix, compressed, alphabet)))
    back = outcome(P2PKHAddress.decode, got[1], address_prefix=prefix, alphabet=alphabet)
    assert same(back, ("ok", hexstr(ripemd160(sha256(pt_ser(p, compressed))))))


def c12_decode(address: "text", prefix: "prefix"):
    assert alike(
        outcome(P2PKHAddress.decode, address, address_prefix=prefix),
        outcome(spec.p2pkh_decode, address, prefix)
    )


def c12_decode_alphabet(address: "text", prefix: "prefix", alphabet: "alphabet"):
    assert alike(
        outcome(P2PKHAddress.decode, address, address_prefix=prefix, alphabet=alphabet),
        outcome(spec.p2pkh_decode, address, prefix, alphabet)
    )


# ------------------------------------------------------------------ C13
def c13_hashes(data: "none|bytes|text"):
    assert alike(outcome(crypto.ripemd160, data), outcome(spec.h_ripemd160, data))
    assert alike(outcome(crypto.sha256, data), outcome(spec.h_sha256, data))
    assert alike(outcome(crypto.double_sha256, data), outcome(spec.h_double_sha256, data))
    assert alike(outcome(crypto.hash160, data), outcome(spec.h_hash160, data))
    assert alike(outcome(crypto.get_checksum, data), outcome(spec.h_checksum, data))


def c13_bundled(data: "bytes"):
    assert same(outcome(bundled.ripemd160, data), ("ok", ripemd160(data)))


# ------------------------------------------------------------------ C14
def c14_private(data: "bytes"):
    got = outcome(PrivateKey.from_bytes, data)
    valid = False
    if len(data) == 32:
        k = os2ip(data)
        if k > 0 and k < N:
            valid = True
    if valid:
        assert got[0] == "ok"
        assert same(outcome(got[1].raw), ("ok", data))
        assert same_value(PrivateKey.length(), 32)
        pub = got[1].public_key()
        assert same(outcome(pub.raw_compressed), ("ok", pt_ser(pt(k), True)))
        assert same(outcome(pub.raw_uncompressed), ("ok", pt_ser(pt(k), False)))
        assert same_value(pub.point().x(), pt_x(pt(k)))
        assert same_value(pub.point().y(), pt_y(pt(k)))
        assert same_value(pub.point().raw_encoded(), pt_ser(pt(k), True))
        assert same_value((pub.point() * 1).raw_decoded(), pt_ser(pt(k), False)[1:])
    else:
        assert raised(got, "Secp256k1Error")


def c14_public(data: "bytes"):
    p = pt_parse(data)
    got = outcome(PublicKey.from_bytes, data)
    if p is None:
        assert raised(got, "Secp256k1Error")
    else:
        assert got[0] == "ok"
        pub = got[1]
        c = outcome(pub.raw_compressed)
        u = outcome(pub.raw_uncompressed)
        assert same(c, ("ok", pt_ser(p, True)))
        assert same(u, ("ok", pt_ser(p, False)))
        assert same(outcome(pub.raw, "compressed"), c)
        assert same(outcome(pub.raw, "uncompressed"), u)
        assert same_value(PublicKey.compressed_length(), len(c[1]))
        assert same_value(PublicKey.uncompressed_length(), len(u[1]))
        again = outcome(PublicKey.from_bytes, c[1])
        assert again[0] == "ok"
        assert same(outcome(again[1].raw_uncompressed), u)
        other = outcome(PublicKey.from_bytes, u[1])
        assert other[0] == "ok"
        assert same(outcome(other[1].raw_compressed), c)
        assert same(outcome(pub.point().raw_encoded), c)
        q = outcome(PublicKey.from_point, pub.point())
        assert q[0] == "ok"
        assert same(outcome(q[1].raw_compressed), c)
        assert same(outcome(q[1].raw_uncompressed), u)


def c14_point(k: "scalar", form: "'compressed'|'uncompressed'|'raw'|'xy'"):
    p = pt(k)
    x = i2osp(pt_x(p), 32)
    y = i2osp(pt_y(p), 32)
    if form == "compressed":
        got = outcome(Point.from_bytes, pt_ser(p, True))
    elif form == "uncompressed":
        got = outcome(Point.from_bytes, pt_ser(p, False))
    elif form == "raw":
        got = outcome(Point.from_bytes, x + y)
    else:
        got = outcome(Point.from_coordinates, pt_x(p), pt_y(p))
    assert got[0] == "ok"
    q = got[1]
    assert same_value(q.x(), pt_x(p))
    assert same_value(q.y(), pt_y(p))
    assert same_value(q.raw_encoded(), pt_ser(p, True))
    assert same_value(q.raw_decoded(), x + y)
    assert same_value(q.raw(), x + y)


def c14_group(a: "scalar", b: "scalar"):
    p = Point.from_bytes(pt_ser(pt(a), True))
    q = Point.from_bytes(pt_ser(pt(b), False))
    m = pt_mul(pt(a), b)
    assert same_value((p * b).raw_encoded(), pt_ser(m, True))
    assert same_value((b * p).raw_encoded(), pt_ser(m, True))
    s = pt_add(pt(a), pt(b))
    if not pt_inf(s):
        assert same_value((p + q).raw_encoded(), pt_ser(s, True))
        assert same_value((q + p).raw_decoded(), pt_ser(s, False)[1:])
        assert same_value(p.__radd__(q).raw(), pt_ser(s, False)[1:])
    else:
        assert (p + q).x() is None


def c14_scalar(a: "scalar", n: "0|1|u256"):
    p = Point.from_bytes(pt_ser(pt(a), True))
    m = pt_mul(pt(a), n)
    if not pt_inf(m):
        assert same_value((p * n).raw_encoded(), pt_ser(m, True))
        assert same_value((n * p).raw_decoded(), pt_ser(m, False)[1:])
    else:
        assert (p * n).x() is None


# ------------------------------------------------------------------ C15
def c15_minimal(x: "nat", endianness: "'big'|'little'"):
    got = outcome(utils.integer_to_bytes, x, endianness=endianness)
    assert same(got, outcome(spec.integer_to_bytes, x, None, endianness))
    assert same(outcome(utils.bytes_to_integer, got[1], endianness), ("ok", x))


def c15_fixed(x: "nat", n: "pos", endianness: "'big'|'little'"):
    got = outcome(utils.integer_to_bytes, x, n, endianness)
    if fits(x, n):
        assert got[0] == "ok"
        assert len(got[1]) == n
        assert same(outcome(utils.bytes_to_integer, got[1], endianness), ("ok", x))
        assert same(got, outcome(spec.integer_to_bytes, x, n, endianness))
    else:
        assert got[0] == "exc"


def c15_bytes(data: "bytes"):
    h = outcome(utils.bytes_to_string, data)
    assert same(h, outcome(spec.bytes_to_string, data))
    assert same(outcome(utils.get_bytes, h[1]), ("ok", data))
    r = outcome(utils.bytes_reverse, data)
    assert r[0] == "ok"
    assert same(outcome(utils.bytes_reverse, r[1]), ("ok", data))
    assert same(outcome(utils.get_bytes, data), ("ok", data))


# ------------------------------------------------------------------ C16
def c16_construct(coin: "coin", name: "name"):
    got = outcome(BIP38, cryptocurrency=coin, network=name)
    if known(coin, name):
        assert got[0] == "ok"
    else:
        assert raised(got, "NetworkError")
    if known(coin, "mainnet"):
        assert outcome(BIP38, coin)[0] == "ok"


def c16_default_encrypt(wif: "text", passphrase: "text"):
    """The main network is the documented default."""
    got = outcome(BIP38(Bitcoin).encrypt, wif, passphrase)
    assert alike(got, outcome(spec.encrypt, Bitcoin, "mainnet", wif, passphrase, None))


def c16_default_confirm(passphrase: "text", code: "text"):
    got = outcome(BIP38(Bitcoin).confirm_code, passphrase, code)
    assert alike(got, outcome(spec.confirm, Bitcoin, "mainnet", passphrase, code, None, False))


def c16_default_decrypt(enc: "text", passphrase: "text"):
    got = outcome(BIP38(Bitcoin).decrypt, enc, passphrase)
    assert alike(got, outcome(spec.decrypt, Bitcoin, "mainnet", enc, passphrase, None, False))


def c16_encrypt(coin: "coin", default: "network", net: "none|name", wif: "text", passphrase: "text"):
    n = the(default, net)
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.encrypt, wif=wif, passphrase=passphrase, network=net)
    if not known(coin, n):
        assert raised(got, "NetworkError")
    else:
        assert not raised(got, "NetworkError")
        other = BIP38(cryptocurrency=coin, network=n)
        assert alike(got, outcome(other.encrypt, wif, passphrase))
        if got[0] == "ok":
            w = outcome(spec.wif_decode, wif, wif_prefix(coin, n))
            assert w[0] == "ok"
            address = spec.p2pkh(pt(os2ip(w[1][0])), address_prefix(coin, n), w[1][1] == "wif-compressed")
            assert spec.address_hash(address) == b58dec(got[1], spec.ALPHABET)[3:7]
            assert same(outcome(b.encrypt, wif=wif, passphrase=passphrase, network=net), got)


def c16_create(
    coin: "coin", default: "network", net: "none|name", code: "text", wif_type: "text", seed: "bytes24"
):
    n = the(default, net)
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.create_new_encrypted_wif, intermediate_passphrase=code, wif_type=wif_type, seed=seed, network=net)
    if not known(coin, n):
        assert raised(got, "NetworkError")
    else:
        assert not raised(got, "NetworkError")
        other = BIP38(cryptocurrency=coin, network=n)
        assert alike(got, outcome(
            other.create_new_encrypted_wif, code, wif_type, seed
        ))
        if got[0] == "ok":
            q = pt_parse(unhex(got[1]["public_key"]))
            assert q is not None
            assert same_value(
                got[1]["address"],
                spec.p2pkh(q, address_prefix(coin, n), got[1]["public_key_type"] == "compressed")
            )


def c16_confirm(coin: "coin", default: "network", net: "none|name", code: "text", passphrase: "text"):
    n = the(default, net)
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, network=net)
    if not known(coin, n):
        assert raised(got, "NetworkError")
    else:
        assert not raised(got, "NetworkError")
        other = BIP38(cryptocurrency=coin, network=n)
        assert alike(got, outcome(other.confirm_code, passphrase, code))
        if got[0] == "ok":
            assert outcome(spec.p2pkh_decode, got[1], address_prefix(coin, n))[0] == "ok"


def c16_decrypt(coin: "coin", default: "network", net: "none|name", enc: "text", passphrase: "text"):
    n = the(default, net)
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.decrypt, encrypted_wif=enc, passphrase=passphrase, network=net, detail=True)
    if not known(coin, n):
        assert raised(got, "NetworkError")
    else:
        assert not raised(got, "NetworkError")
        other = BIP38(cryptocurrency=coin, network=n)
        assert alike(got, outcome(other.decrypt, enc, passphrase, detail=True))
        if got[0] == "ok":
            assert outcome(spec.wif_decode, got[1]["wif"], wif_prefix(coin, n))[0] == "ok"
            assert outcome(spec.p2pkh_decode, got[1]["address"], address_prefix(coin, n))[0] == "ok"


# ------------------------------------------------------------------ C17
def c17_usable(coin: "coin", net: "network", key: "scalar", compressed: "bool"):
    """Whatever one- or two-byte prefixes the table gives, the currency and network can be used."""
    assert outcome(BIP38, cryptocurrency=coin, network=net)[0] == "ok"
    k = i2osp(key, 32)
    w = outcome(private_key_to_wif, k, kind_of(compressed), coin, net)
    assert w[0] == "ok"
    assert same(outcome(wif_to_private_key, w[1], coin, net), ("ok", hexstr(k)))
    assert same(outcome(get_wif_type, w[1], coin, net), ("ok", kind_of(compressed)))
    prefix = address_prefix(coin, net)
    a = outcome(P2PKHAddress.encode, pt_ser(pt(key), True), address_prefix=prefix, public_key_type=key_kind(compressed))
    assert a[0] == "ok"
    assert same(
        outcome(P2PKHAddress.decode, a[1], address_prefix=prefix),
        ("ok", hexstr(ripemd160(sha256(pt_ser(pt(key), compressed)))))
    )


# ------------------------------------------------------------------ C18
def c18_salt(passphrase: "text", lot: "none|int", sequence: "none|int"):
    got = outcome(BIP38.intermediate_code, passphrase=passphrase, lot=lot, sequence=sequence)
    d = draws()
    if got[0] == "ok":
        drawn = b"".join(d)
        assert other_draws() == 0
        assert len(drawn) == 8
        raw = b58dec(got[1], spec.ALPHABET)
        if lot is None:
            assert raw[8:16] == drawn
        else:
            assert raw[8:12] == drawn[:4]
        assert same(outcome(
            BIP38.intermediate_code, passphrase=passphrase, lot=lot, sequence=sequence, owner_salt=drawn
        ), got)


def c18_salt_given(passphrase: "text", lot: "none|int", sequence: "none|int", owner_salt: "bytes+|text1"):
    got = outcome(BIP38.intermediate_code, passphrase=passphrase, lot=lot, sequence=sequence, owner_salt=owner_salt)
    assert len(draws()) == 0
    assert other_draws() == 0
    if got[0] == "ok":
        salt = spec.get_bytes(owner_salt)
        raw = b58dec(got[1], spec.ALPHABET)
        if lot is None:
            assert raw[8:16] == salt
        else:
            assert raw[8:12] == salt[:4]


def used_seed(code, seed, got):
    """The key created is the pass point of the code times the double SHA-256 of the seed, and the seed is reported."""
    assert same_value(got["seed"], hexstr(seed))
    raw = b58dec(code, spec.ALPHABET)
    q = pt_mul(pt_parse(raw[16:49]), os2ip(sha256(sha256(seed))))
    assert same_value(got["public_key"], hexstr(pt_ser(q, got["public_key_type"] == "compressed")))


def c18_seed(coin: "coin", net: "network", code: "text", wif_type: "'wif'|'wif-compressed'"):
    b = BIP38(cryptocurrency=coin, network=net)
    got = outcome(b.create_new_encrypted_wif, intermediate_passphrase=code, wif_type=wif_type)
    d = draws()
    if got[0] == "ok":
        drawn = b"".join(d)
        assert other_draws() == 0
        assert len(drawn) == 24
        used_seed(code, drawn, got[1])
        assert same(outcome(
            b.create_new_encrypted_wif, intermediate_passphrase=code, wif_type=wif_type, seed=drawn
        ), got)


def c18_seed_given(
    coin: "coin", net: "network", code: "text", wif_type: "'wif'|'wif-compressed'", seed: "bytes24|text1"
):
    b = BIP38(cryptocurrency=coin, network=net)
    got = outcome(b.create_new_encrypted_wif, intermediate_passphrase=code, wif_type=wif_type, seed=seed)
    assert len(draws()) == 0
    assert other_draws() == 0
    if got[0] == "ok":
        used_seed(code, spec.get_bytes(seed), got[1])


# ------------------------------------------------------------------ C19
def fine(got):
    if got[0] == "ok":
        return True
    return raised(got, "Error", "ValueError")


def c19_construct(coin: "coin", name: "text"):
    got = outcome(BIP38, cryptocurrency=coin, network=name)
    assert fine(got)
    if not known(coin, name):
        assert raised(got, "NetworkError")


def c19_wif_encode(coin: "coin", net: "text", key: "bytes32", kind: "text", prefix: "prefix"):
    got = outcome(private_key_to_wif, key, kind, coin, net)
    assert fine(got)
    if not known(coin, net) and (kind == "wif" or kind == "wif-compressed"):
        assert raised(got, "NetworkError")
    assert fine(outcome(encode_wif, key, prefix))


def wif_consumer(operation, wif, coin, net):
    got = outcome(operation, wif, coin, net)
    assert fine(got)
    if not known(coin, net):
        assert raised(got, "NetworkError")


def c19_wif_key(coin: "coin", net: "text", wif: "text"):
    wif_consumer(wif_to_private_key, wif, coin, net)


def c19_wif_type(coin: "coin", net: "text", wif: "text"):
    wif_consumer(get_wif_type, wif, coin, net)


def c19_wif_checksum(coin: "coin", net: "text", wif: "text"):
    wif_consumer(get_wif_checksum, wif, coin, net)


def c19_wif_decode(wif: "text", prefix: "prefix"):
    assert fine(outcome(decode_wif, wif, prefix))


def c19_key(key: "bytes|text", kind: "text", coin: "coin", net: "network"):
    assert fine(outcome(private_key_to_wif, key, kind, coin, net))
    assert fine(outcome(encode_wif, key, wif_prefix(coin, net)))


def c19_intermediate(passphrase: "text", lot: "none|int", sequence: "none|int", owner_salt: "none|bytes+|text1"):
    got = outcome(BIP38.intermediate_code, passphrase=passphrase, lot=lot, sequence=sequence, owner_salt=owner_salt)
    assert fine(got)


def c19_encrypt(coin: "coin", default: "network", net: "none|name", wif: "text", passphrase: "text"):
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.encrypt, wif=wif, passphrase=passphrase, network=net)
    assert fine(got)
    if not known(coin, the(default, net)):
        assert raised(got, "NetworkError")


def c19_create(coin: "coin", default: "network", net: "none|name", code: "text", wif_type: "text"):
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.create_new_encrypted_wif, intermediate_passphrase=code, wif_type=wif_type, network=net)
    assert fine(got)
    if not known(coin, the(default, net)):
        assert raised(got, "NetworkError")


def c19_confirm(
    coin: "coin", default: "network", net: "none|name", passphrase: "text", code: "text", detail: "bool"
):
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, network=net, detail=detail)
    assert fine(got)
    if not known(coin, the(default, net)):
        assert raised(got, "NetworkError")


def c19_decrypt(
    coin: "coin", default: "network", net: "none|name", passphrase: "text", enc: "text", detail: "bool"
):
    b = BIP38(cryptocurrency=coin, network=default)
    got = outcome(b.decrypt, encrypted_wif=enc, passphrase=passphrase, network=net, detail=detail)
    assert fine(got)
    if not known(coin, the(default, net)):
        assert raised(got, "NetworkError")


def c19_wrong_passphrase(
    coin: "coin", default: "network", net: "none|network", passphrase: "text", text: "text", confirm: "bool"
):
    b = BIP38(cryptocurrency=coin, network=default)
    if confirm:
        want = outcome(spec.confirm, coin, default, passphrase, text, net, False)
        got = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=text, network=net)
    else:
        want = outcome(spec.decrypt, coin, default, text, passphrase, net, False)
        got = outcome(b.decrypt, encrypted_wif=text, passphrase=passphrase, network=net)
    if rejects(want, "PassphraseError"):
        assert raised(got, "PassphraseError")
    elif want[0] == "ok":
        assert not raised(got, "PassphraseError")


# ------------------------------------------------------------------ C20
def c20_decrypt(coin: "coin", default: "network", net: "none|network", passphrase: "text", enc: "text"):
    n = the(default, net)
    b = BIP38(cryptocurrency=coin, network=default)
    p = outcome(b.decrypt, encrypted_wif=enc, passphrase=passphrase, network=net)
    d = outcome(b.decrypt, encrypted_wif=enc, passphrase=passphrase, network=net, detail=True)
    assert p[0] == d[0]
    if d[0] == "ok":
        r = d[1]
        assert same_value(p[1], r["wif"])
        w = outcome(spec.wif_decode, r["wif"], wif_prefix(coin, n))
        assert w[0] == "ok"
        key = w[1][0]
        compressed = w[1][1] == "wif-compressed"
        q = pt(os2ip(key))
        assert same_value(r["private_key"], hexstr(key))
        assert same_value(r["wif_type"], w[1][1])
        assert same_value(r["public_key"], hexstr(pt_ser(q, compressed)))
        assert same_value(r["public_key_type"], key_kind(compressed))
        assert same_value(r["address"], spec.p2pkh(q, address_prefix(coin, n), compressed))
        raw = b58dec(enc, spec.ALPHABET)
        if raw[1] == 0x43 and raw[2] & 4 and spec.flag_ok(raw[2]):
            assert same_value(r["lot"], spec.lot_of(raw[7:15]))
            assert same_value(r["sequence"], spec.sequence_of(raw[7:15]))
        elif raw[1] != 0x43 or spec.flag_ok(raw[2]):
            assert r["lot"] is None
            assert r["sequence"] is None


def c20_confirm(coin: "coin", default: "network", net: "none|network", passphrase: "text", code: "text"):
    n = the(default, net)
    b = BIP38(cryptocurrency=coin, network=default)
    p = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, network=net)
    d = outcome(b.confirm_code, passphrase=passphrase, confirmation_code=code, network=net, detail=True)
    assert p[0] == d[0]
    if d[0] == "ok":
        r = d[1]
        assert same_value(p[1], r["address"])
        q = pt_parse(unhex(r["public_key"]))
        assert q is not None
        compressed = r["public_key_type"] == "compressed"
        assert same_value(r["public_key_type"], key_kind(compressed))
        assert same_value(r["public_key"], hexstr(pt_ser(q, compressed)))
        assert same_value(r["address"], spec.p2pkh(q, address_prefix(coin, n), compressed))
        raw = b58dec(code, spec.ALPHABET)
        if raw[5] & 4 and spec.flag_ok(raw[5]):
            assert same_value(r["lot"], spec.lot_of(raw[10:18]))
            assert same_value(r["sequence"], spec.sequence_of(raw[10:18]))
        elif spec.flag_ok(raw[5]):
            assert r["lot"] is None
            assert r["sequence"] is None
