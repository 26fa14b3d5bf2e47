"""Registered protocol numbers (IANA TLS registries, RFC 5246, 4492, 6066, 3749, 7905 drafts)."""
CODES = {
    "ContentType": dict(ChangeCipherSpecTy=20, AlertTy=21, HandshakeTy=22, ApplicationDataTy=23),
    "AlertLevel": dict(warning=1, fatal=2),
    "AlertDescription": dict(
        close_notify=0, unexpected_message=10, bad_record_mac=20, decryption_failed_RESERVED=21, record_overflow=22,
        decompression_failure=30, handshake_failure=40, no_certificate_RESERVED=41, bad_certificate=42,
        unsupported_certificate=43, certificate_revoked=44, certificate_expired=45, certificate_unknown=46,
        illegal_parameter=47, unknown_ca=48, access_denied=49, decode_error=50, decrypt_error=51,
        export_restriction_RESERVED=60, protocol_version=70, insufficient_security=71, internal_error=80,
        user_canceled=90, no_renegotiation=100, unsupported_extension=110, certificate_unobtainable=111,
        unrecognized_name=112, bad_certificate_status_response=113, bad_certificate_hash_value=114),
    "CompressionMethod": dict(null=0, DEFLATE=1),
    "NamedCurve": dict(
        sect163k1=1, sect163r1=2, sect163r2=3, sect193r1=4, sect193r2=5, sect233k1=6, sect233r1=7, sect239k1=8,
        sect283k1=9, sect283r1=10, sect409k1=11, sect409r1=12, sect571k1=13, sect571r1=14, secp160k1=15, secp160r1=16,
        secp160r2=17, secp192k1=18, secp192r1=19, secp224k1=20, secp224r1=21, secp256k1=22, secp256r1=23,
        secp384r1=24, secp521r1=25, arbitrary_explicit_prime_curves=0xFF01, arbitrary_explicit_char2_curves=0xFF02),
    "ECPointFormat": dict(uncompressed=0, ansiX962_compressed_prime=1, ansiX962_compressed_char2=2),
    "ClientCertificateType": dict(rsa_sign=1, dss_sign=2, rsa_fixed_dh=3, dss_fixed_dh=4, rsa_ephemeral_dh_RESERVED=5,
                                  dss_ephemeral_dh_RESERVED=6, fortezza_dms_RESERVED=20),
    "HashAlgorithm": dict(none=0, md5=1, sha1=2, sha224=3, sha256=4, sha384=5, sha512=6),
    "SignatureAlgorithm": dict(anonymous=0, rsa=1, dsa=2, ecdsa=3),
    "Handshake": dict(hello_request=0, client_hello=1, server_hello=2, certificate=11, server_key_exchange=12,
                      certificate_request=13, server_hello_done=14, client_key_exchange=16, finished=20),
    "Extension": dict(elliptic_curves=10, ec_point_formats=11, signature_algorithms=13),
    "ECCurveType": dict(explicit_prime=1, explicit_char2=2, named_curve=3),
    "CipherSuite": dict(TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256=0xcca8),
}
