#!/usr/bin/env python3
"""Key agreement vectors, computed from the definitions (no crypto library): writes mc/src/agree.rs"""
import hashlib, os, re, sys
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, "../mc/src/keymat.rs")).read()
p_dh = int(re.search(r'FFDHE2048[^"]*"([0-9a-fA-F]+)"', src).group(1), 16)

def rnd(tag, n):
    return int.from_bytes(hashlib.shake_256(tag.encode()).digest(n), "big")

CURVES = {
 "P256": (0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
   0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5,
   0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551),
 "P384": (2**384-2**128-2**96+2**32-1, 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
   0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
   0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f,
   0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973),
 "P521": (2**521-1, 0x0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
   0x00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
   0x011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650,
   int("01ff" + "f"*62 + "fa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409", 16)),
}
def add(c, P, Q):
    p = c[0]
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3*P[0]*P[0] - 3) * pow(2*P[1], -1, p) % p
    else:
        l = (Q[1]-P[1]) * pow(Q[0]-P[0], -1, p) % p
    x = (l*l - P[0] - Q[0]) % p
    return (x, (l*(P[0]-x) - P[1]) % p)
def mul(c, k, P):
    R = None
    while k:
        if k & 1: R = add(c, R, P)
        P = add(c, P, P)
        k >>= 1
    return R
def xdh(k, u, bits, a24, p):
    x1, x2, z2, x3, z3, swap = u, 1, 0, u, 1, 0
    for t in reversed(range(bits)):
        kt = (k >> t) & 1
        if swap ^ kt: x2, x3, z2, z3 = x3, x2, z3, z2
        swap = kt
        A = (x2+z2) % p; AA = A*A % p; B = (x2-z2) % p; BB = B*B % p; E = (AA-BB) % p
        C = (x3+z3) % p; D = (x3-z3) % p; DA = D*A % p; CB = C*B % p
        x3 = pow(DA+CB, 2, p); z3 = x1*pow(DA-CB, 2, p) % p
        x2 = AA*BB % p; z2 = E*(AA+a24*E) % p
    if swap: x2, x3, z2, z3 = x3, x2, z3, z2
    return x2*pow(z2, p-2, p) % p
def x25519(k, u):
    k = bytearray(k); k[0] &= 248; k[31] &= 127; k[31] |= 64
    u = bytearray(u); u[31] &= 127
    p = 2**255-19
    return xdh(int.from_bytes(k, "little"), int.from_bytes(u, "little") % p, 255, 121665, p).to_bytes(32, "little")
def x448(k, u):
    k = bytearray(k); k[0] &= 252; k[55] |= 128
    p = 2**448-2**224-1
    return xdh(int.from_bytes(k, "little"), int.from_bytes(u, "little") % p, 448, 39081, p).to_bytes(56, "little")
assert x25519(bytes.fromhex("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"), bytes.fromhex("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")).hex() == "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"

rows = []
for name, c in CURVES.items():
    p, b, gx, gy, n = c
    assert (gy*gy - gx**3 + 3*gx - b) % p == 0, name
    l = (p.bit_length()+7)//8
    G = (gx, gy)
    assert mul(c, n, G) is None
    ds = [(1, rnd(name+"a", 80) % n), (n-1, rnd(name+"b", 80) % n), (rnd(name+"c", 80) % n, rnd(name+"d", 80) % n), (2, 1), (rnd(name+"d", 80) % n, rnd(name+"c", 80) % n)]
    # a shared secret with a leading zero byte (P521's x has seven spare bits: two zero bytes)
    d = rnd(name+"z", 80) % n
    zb = 8*l - 8 if name != "P521" else 8*l - 16
    P0 = mul(c, d, G); S = P0; k = 1
    while S[0] >> zb:
        S = add(c, S, P0); k += 1
    ds.append((d, k)); ds.append((k, d))
    for d, e in ds:
        Q = mul(c, e, G)
        Z = mul(c, d, Q)
        rows.append((name, d.to_bytes(l, "big"), b"\x04" + Q[0].to_bytes(l, "big") + Q[1].to_bytes(l, "big"), Z[0].to_bytes(l, "big")))
for name, f, l, base in (("X25519", x25519, 32, 9), ("X448", x448, 56, 5)):
    bp = base.to_bytes(l, "little")
    ks = [hashlib.shake_256((name+str(i)).encode()).digest(l) for i in range(4)]
    for a, b in ((0, 1), (1, 0), (2, 3), (3, 2)):
        pb = f(ks[b], bp)
        rows.append((name, ks[a], pb, f(ks[a], pb)))
    # leading zero byte
    i = 0
    while True:
        k = hashlib.shake_256((name+"z"+str(i)).encode()).digest(l)
        pb = f(k, bp)
        z = f(ks[0], pb)
        if z[0] == 0: break
        i += 1
    rows.append((name, ks[0], pb, z))
p = p_dh
l = 256
xs = [rnd("dh%d" % i, 32) for i in range(4)]
for a, b in ((0, 1), (1, 0), (2, 3)):
    rows.append(("DH", xs[a].to_bytes(32, "big"), pow(2, xs[b], p).to_bytes(l, "big"), pow(2, xs[a]*xs[b], p).to_bytes(l, "big")))
for zeros in (1, 2):
    Y = pow(2, xs[0], p); y = 1; k = Y
    # y = 2^j for growing j: z = Y^j
    j = 1
    while k >> (8*(l-zeros)):
        k = k*Y % p; j += 1
    j2 = pow(2, j, p)
    if j < 200:
        pass
    rows.append(("DH", xs[0].to_bytes(32, "big"), j2.to_bytes(l, "big"), k.to_bytes(l, "big")))
out = "// generated by scripts/genagree.py\npub const AGREE: &[(&str, &str, &str, &str)] = &[\n"
for n, d, q, z in rows:
    out += '    ("%s", "%s", "%s", "%s"),\n' % (n, d.hex(), q.hex(), z.hex())
open(os.path.join(here, "../mc/src/agree.rs"), "w").write(out + "];\n")
