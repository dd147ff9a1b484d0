"""The functions under contract: qualified name, functional specification, domain of each parameter.

`spec` is a function of contracts/spec.py taking the listed parameters in this order.  A parameter that is not listed
must have its default value at every call, otherwise the contract says nothing about that call.
"""

BL = "none|bytes|text"
SK, PK, PT = "bip38.secp256k1.private_key.PrivateKey.", "bip38.secp256k1.public_key.PublicKey.", \
    "bip38.secp256k1.point.Point."

CONTRACTS = [
    # ---- utils
    dict(q="bip38.utils.get_bytes", spec="get_bytes", data=BL, unhexlify="bool"),
    dict(q="bip38.utils.bytes_to_string", spec="bytes_to_string", data="bytes|text"),
    dict(q="bip38.utils.bytes_reverse", spec="bytes_reverse", data="bytes"),
    dict(q="bip38.utils.bytes_to_integer", spec="bytes_to_integer", data="bytes", endianness="'big'|'little'"),
    dict(q="bip38.utils.integer_to_bytes", spec="integer_to_bytes", data="nat", bytes_num="none|pos",
         endianness="'big'|'little'"),
    # ---- crypto
    dict(q="bip38.crypto.ripemd160", spec="h_ripemd160", data=BL),
    dict(q="bip38.crypto.sha256", spec="h_sha256", data=BL),
    dict(q="bip38.crypto.double_sha256", spec="h_double_sha256", data=BL),
    dict(q="bip38.crypto.hash160", spec="h_hash160", data=BL),
    dict(q="bip38.crypto.get_checksum", spec="h_checksum", data=BL),
    # ---- base58
    dict(q="bip38.libs.base58.encode", spec="b58_encode", proof="b58_encode", data="bytes", alphabet="alphabet"),
    dict(q="bip38.libs.base58.decode", spec="b58_decode", proof="b58_decode", data="text", alphabet="alphabet"),
    dict(q="bip38.libs.base58.check_encode", spec="b58_check_encode", raw="bytes", alphabet="alphabet"),
    dict(q="bip38.libs.base58.check_decode", spec="b58_check_decode", enc="text", alphabet="alphabet"),
    dict(q="bip38.libs.base58.ensure_string", spec="ensure_string", data="text"),
    # ---- bundled RIPEMD-160
    dict(q="bip38.libs.ripemd160.rol", spec="word_rol", x="word", i="rotation"),
    dict(q="bip38.libs.ripemd160.fi", spec="word_f", x="word", y="word", z="word", i="0|1|2|3|4"),
    dict(q="bip38.libs.ripemd160.compress", spec="word_compress", proof="rmd_compress", h0="word", h1="word", h2="word",
         h3="word", h4="word", block="bytes64"),
    dict(q="bip38.libs.ripemd160.ripemd160", spec="h_ripemd160", proof="rmd_digest", data="bytes"),
    # ---- wif
    dict(q="bip38.wif.encode_wif", spec="wif_encode", private_key="bytes|text", wif_prefix="prefix"),
    dict(q="bip38.wif.decode_wif", spec="wif_decode", wif="text", wif_prefix="prefix"),
    dict(q="bip38.wif.private_key_to_wif", spec="private_key_to_wif", private_key="bytes|text", wif_type="text",
         cryptocurrency="coin", network="text"),
    dict(q="bip38.wif.wif_to_private_key", spec="wif_to_private_key", wif="text", cryptocurrency="coin",
         network="text"),
    dict(q="bip38.wif.get_wif_type", spec="get_wif_type", wif="text", cryptocurrency="coin", network="text"),
    dict(q="bip38.wif.get_wif_checksum", spec="get_wif_checksum", wif="text", cryptocurrency="coin",
         network="text"),
    dict(q="bip38.wif.get_wif_prefix", spec="prefix_of", cryptocurrency="coin", network="text"),
    # ---- secp256k1; privkey, pubkey, ecpoint: an object of the package wrapping a key or a finite point
    dict(q=SK + "from_bytes", spec="private_key", method="class", returns="privkey", private_key="bytes"),
    dict(q=SK + "length", spec="private_key_length"),
    dict(q=SK + "raw", spec="private_key_raw", method="privkey"),
    dict(q=SK + "public_key", spec="private_key_public", method="privkey", returns="pubkey"),
    dict(q=PK + "from_bytes", spec="public_key", method="class", returns="pubkey", public_key="bytes"),
    dict(q=PK + "from_point", spec="identity", method="class", returns="pubkey", point="ecpoint"),
    dict(q=PK + "compressed_length", spec="compressed_length"),
    dict(q=PK + "uncompressed_length", spec="uncompressed_length"),
    dict(q=PK + "raw", spec="public_key_raw", method="pubkey", public_key_type="'compressed'|'uncompressed'"),
    dict(q=PK + "raw_compressed", spec="compressed", method="pubkey"),
    dict(q=PK + "raw_uncompressed", spec="uncompressed", method="pubkey"),
    dict(q=PK + "point", spec="identity", method="pubkey", returns="ecpoint"),
    dict(q=PT + "from_bytes", spec="point", method="class", returns="ecpoint", point="bytes"),
    dict(q=PT + "from_coordinates", spec="point_from_coordinates", method="class", returns="ecpoint", x="u256",
         y="u256"),
    dict(q=PT + "x", spec="point_x", method="ecpoint"),
    dict(q=PT + "y", spec="point_y", method="ecpoint"),
    dict(q=PT + "raw", spec="coordinates", method="ecpoint"),
    dict(q=PT + "raw_encoded", spec="compressed", method="ecpoint"),
    dict(q=PT + "raw_decoded", spec="coordinates", method="ecpoint"),
    dict(q=PT + "__add__", spec="point_add", method="ecpoint", returns="ecpoint", point="ecpoint"),
    dict(q=PT + "__radd__", spec="point_add", method="ecpoint", returns="ecpoint", point="ecpoint"),
    dict(q=PT + "__mul__", spec="point_mul", method="ecpoint", returns="ecpoint", scalar="u256"),
    dict(q=PT + "__rmul__", spec="point_mul", method="ecpoint", returns="ecpoint", scalar="u256"),
    # ---- addresses; "**key": an optional keyword
    {"q": "bip38.p2pkh_address.P2PKHAddress.encode", "spec": "address_encode", "method": "class",
     "public_key": "pubkey|bytes|text", "**address_prefix": "absent|prefix",
     "**public_key_type": "absent|'compressed'|'uncompressed'", "**alphabet": "absent|alphabet"},
    {"q": "bip38.p2pkh_address.P2PKHAddress.decode", "spec": "address_decode", "method": "class", "address": "text",
     "**address_prefix": "absent|prefix", "**alphabet": "absent|alphabet"},
    # ---- BIP38
    dict(q="bip38.bip38.BIP38.intermediate_code", spec="intermediate", method="class", passphrase="text",
         lot="none|int", sequence="none|int", owner_salt="none|bytes+|text1"),
    dict(q="bip38.bip38.BIP38.encrypt", spec="encrypt", method="self", wif="text", passphrase="text",
         network="none|name"),
    dict(q="bip38.bip38.BIP38.create_new_encrypted_wif", spec="create", method="self",
         intermediate_passphrase="text", wif_type="text", seed="none|bytes+|text1", network="none|name"),
    dict(q="bip38.bip38.BIP38.confirm_code", spec="confirm", method="self", passphrase="text",
         confirmation_code="text", network="none|name", detail="bool"),
    dict(q="bip38.bip38.BIP38.decrypt", spec="decrypt", method="self", encrypted_wif="text", passphrase="text",
         network="none|name", detail="bool"),
]
