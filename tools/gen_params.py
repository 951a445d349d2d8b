#!/usr/bin/env python3
"""Writes the parameter tables shared by the cryptographic specifications and
the replay harness: spec/cryptodata.qnt and crypto-harness/src/params.rs.

Fields and curves are standard primes and curves plus small ones; the Poseidon2
instances are pinned in tools/poseidon_instances.json (taken once from the
repository's tables, which its known-answer tests fix), and every further state
size gets constants from a simple recurrence."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INSTANCES = [  # (type in the repository, modulus, generator, prime factors of p - 1)
    ("FpVesta", 28948022309329048855892746252171976963363056481941647379679742748393362948097, 5,
     [2, 3, 1709, 24859, 1690502597179744445941507, 10427374428728808478656897599072717]),
    ("FpBabyBear", 2013265921, 31, [2, 3, 5]),
    ("FpBLS12", 52435875175126190479447740508185965837690552500527637822603658699938581184513, 7,
     [2, 3, 11, 19, 10177, 125527, 859267, 906349, 2508409, 2529403, 52437899, 254760293]),
    ("FpBN256", 21888242871839275222246405745257275088548364400416034343698204186575808495617, 7,
     [2, 3, 13, 29, 983, 11003, 237073, 405928799, 1670836401704629, 13818364434197438864469338081]),
    ("FpGoldiLocks", 18446744069414584321, 7, [2, 3, 5, 17, 257, 65537]),
    ("FpPallas", 28948022309329048855892746252171976963363056481941560715954676764349967630337, 5,
     [2, 3, 463, 539204044132271846773, 8999194758858563409123804352480028797519453]),
]
SECP_P = 2**256 - 2**32 - 977
SECP_N = 115792089237316195423570985008687907852837564279074904382605163141518161494337
P256 = 2**256 - 2**224 + 2**192 + 2**96 - 1
P256_N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
BLS_P = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787
BN_P = 21888242871839275222246405745257275088696311157297823662689037894645226208583
C25519 = 2**255 - 19
L25519 = 2**252 + 27742317777372353535851937790883648493
# (modulus, limbs); limbs may exceed what the modulus needs
CUSTOM = [(3, 1), (5, 1), (17, 1), (97, 1), (65537, 1), (2**61 - 1, 1), (2**63 - 25, 1), (2**64 - 59, 1), (97, 2),
          (2**64 - 59, 2), (2**127 - 1, 2), (2**128 - 159, 2), (2**191 - 19, 3), (2**192 - 237, 3), (97, 4),
          (SECP_P, 4), (SECP_N, 4), (P256, 4), (C25519, 4), (2**320 - 197, 5), (BLS_P, 6), (2**384 - 317, 6),
          (2**448 - 203, 7), (2**447 - 325, 7), (2**512 - 569, 8), (2**521 - 1, 9), (2**640 - 305, 10),
          (2**704 - 245, 11), (2**768 - 825, 12), (2**832 - 143, 13), (2**831 - 1869, 13)]
# (p, a, b, r, h, gx, gy, limbs of base field, limbs of scalar field)
CURVES = [
    (97, 2, 14, 101, 1, 3, 12, 1, 1), (103, 0, 5, 97, 1, 2, 42, 1, 1), (101, 1, 10, 13, 8, 17, 30, 1, 1),
    (61, 0, 8, 19, 4, 50, 18, 1, 1), (61, 1, 0, 13, 4, 36, 24, 1, 1), (5, 2, 1, 7, 1, 0, 1, 1, 1),
    (7, 0, 1, 3, 4, 0, 1, 1, 1), (127, 124, 5, 127, 1, 5, 49, 2, 1), (83, 1, 17, 31, 3, 81, 67, 4, 2),
    (SECP_P, 0, 7, SECP_N, 1, 55066263022277343669578718895168534326250603453777594175500187360389116729240,
     32670510020758816978083085130507043184471273380659243275938904335757337482424, 4, 4),
    (P256, P256 - 3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b, P256_N, 1,
     0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
     0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5, 4, 4),
    (BN_P, 0, 3, INSTANCES[3][1], 1, 1, 2, 4, 4),
    (INSTANCES[5][1], 0, 5, INSTANCES[0][1], 1, INSTANCES[5][1] - 1, 2, 4, 4),
    (C25519, 19298681539552699237261830834781317975544997444273427339909597334573241639236,
     55751746669818908907645289078257140818241103727901012315294400837956729358436, L25519, 8,
     19298681539552699237261830834781317975544997444273427339909597334652188435546,
     43114425171068552920764898935933967039370386198203806730763910166200978582548, 4, 4),
    (BLS_P, 0, 4, INSTANCES[2][1], 0x396c8c005555e1568c00aaab0000aaab,
     3685416753713387016781088315183077757961620795782546409894578378688607592378376318836054947676345821548104185464507,
     1339506544944476473020471379941921221584933875938349620426543736416511423956333506472724655353366534992391756441569, 6, 4),
]
for p, a, b, r, h, x, y, *_ in CURVES:
    assert (y * y - x**3 - a * x - b) % p == 0, p

def ec_add(P, Q, p, a):
    if P is None: return Q
    if Q is None: return P
    if P[0] == Q[0]:
        if (P[1] + Q[1]) % p == 0: return None
        l = (3 * P[0] ** 2 + a) * pow(2 * P[1], -1, p) % p
    else:
        l = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
    x = (l * l - P[0] - Q[0]) % p
    return x, (l * (P[0] - x) - P[1]) % p

def ec_mul(k, P, p, a):
    R = None
    while k:
        if k & 1: R = ec_add(R, P, p, a)
        P = ec_add(P, P, p, a); k >>= 1
    return R

def sqrt_mod(n, p):
    n %= p
    if n == 0: return 0
    if pow(n, (p - 1) // 2, p) != 1: return None
    if p % 4 == 3: return pow(n, (p + 1) // 4, p)
    q, s = p - 1, 0
    while q % 2 == 0: q //= 2; s += 1
    z = 2
    while pow(z, (p - 1) // 2, p) != p - 1: z += 1
    m, c, t, r = s, pow(z, q, p), pow(n, q, p), pow(n, (q + 1) // 2, p)
    while t != 1:
        i, u = 0, t
        while u != 1: u = u * u % p; i += 1
        b = pow(c, 1 << (m - i - 1), p)
        m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
    return r

def points(c):
    """All points of a small curve; of a large one some of the subgroup, some of
    any order, some of small order, some with extreme coordinates."""
    p, a, b, r, h, gx, gy, *_ = c
    if p < 200:
        return [(x, y) for x in range(p) for y in range(p) if (y * y - x**3 - a * x - b) % p == 0]
    out = [ec_mul(k, (gx, gy), p, a) for k in (1, 2, 3, r - 1, r // 2, 2**64, 2**128 - 1)]
    x = 0
    while len(out) < 12:
        y = sqrt_mod(x**3 + a * x + b, p)
        if y is not None: out.append((x, y))
        x += 1
    x = p - 1
    while len(out) < 15:
        y = sqrt_mod(x**3 + a * x + b, p)
        if y is not None: out += [(x, y)]
        x -= 1
    if h > 1:
        low = [ec_mul(r, P, p, a) for P in out[7:]]
        out += [P for P in low if P]
        out += [Q for P in low for Q in [ec_add(P, P, p, a)] if Q][:3]
        if h == 8: out += [Q for P in low for Q in [ec_mul(4, P, p, a)] if Q][:1]
        if h == 8: out += [ec_add(out[1], Q, p, a) for P in low for Q in [ec_mul(4, P, p, a)] if Q][:1]
    for x, y in out: assert (y * y - x**3 - a * x - b) % p == 0
    return out

# Poseidon2 parameter sets of the harness: (modulus index into FIELDS, t, d, capacity, rf, rp)
FIELDS = [(m, 4 if m > 2**64 else 1) for _, m, *_ in INSTANCES] + CUSTOM
SPONGES = [(97, 1, 2, 5, 1, 2, 1), (97, 1, 3, 5, 1, 4, 3), (2**61 - 1, 1, 3, 7, 2, 4, 2), (17, 1, 4, 3, 1, 2, 2),
           (2**64 - 59, 1, 4, 5, 3, 4, 3), (97, 1, 8, 5, 4, 2, 2), (65537, 1, 12, 3, 1, 2, 3), (2013265921, 1, 16, 7, 8, 4, 4),
           (97, 1, 20, 5, 5, 2, 3), (2**127 - 1, 2, 24, 5, 8, 2, 1), (97, 1, 2, 5, 0, 2, 1), (2**128 - 159, 2, 8, 3, 7, 2, 2)]

def consts(p, t, rf, rp):
    """A recurrence that visits zero, one, and p - 1 and otherwise spreads.
    Partial rounds have one constant; sizes 2 and 3 have a fixed matrix."""
    x, out, rounds = 1, [], rf + rp
    for i in range(t + t * rounds):
        x = (x * x * 5 + 3 * i + 1) % p
        out.append([0, p - 1, 1][i % 17] if i % 17 < 3 and i > 5 else x)
    rows = [out[t + r * t: t + (r + 1) * t] for r in range(rounds)]
    rows = [[row[0]] + [0] * (t - 1) if rf // 2 <= r < rf // 2 + rp else row for r, row in enumerate(rows)]
    return {2: [1, 2], 3: [1, 1, 2]}.get(t, out[:t]), rows

def rust():
    o = ["//! Generated by tools/gen_params.py.", "#![allow(long_running_const_eval)]", "#![cfg_attr(rustfmt, rustfmt_skip)]",
         "use openzeppelin_crypto::{arithmetic::uint::{from_str_hex, Uint}, curve::{sw::{Affine, SWCurveConfig}, CurveConfig},",
         "    field::fp::{Fp, FpParams}, poseidon2::params::PoseidonParams};", ""]
    seen = {}
    def field(m, n):
        if (m, n) in seen: return seen[(m, n)]
        name = seen[(m, n)] = f"M{len(seen)}"
        o.append(f"pub struct {name};")
        o.append(f'impl FpParams<{n}> for {name} {{ const MODULUS: Uint<{n}> = from_str_hex("{m:x}"); '
                 f'const GENERATOR: Fp<Self, {n}> = Fp::new(from_str_hex("2")); }}')
        return name
    arms = []
    for i, (m, n) in enumerate(FIELDS):
        if i < len(INSTANCES):
            arms.append(f"        {i} => $go!(openzeppelin_crypto::field::instance::{INSTANCES[i][0]}, {n}),")
        else:
            arms.append(f"        {i} => $go!(Fp<crate::params::{field(m, n)}, {n}>, {n}),")
    o.append("#[macro_export]\nmacro_rules! on_field { ($id:expr, $go:ident) => { match $id {")
    o += arms + ['        _ => panic!("harness: field"),', "    } } }"]
    carms = []
    for i, (p, a, b, r, h, x, y, n, s) in enumerate(CURVES):
        f, g = field(p, n), field(r, s)
        limbs = []
        hh = h
        while hh: limbs.append(str(hh % 2**64)); hh >>= 64
        if i % 2: limbs.append("0")
        hx = lambda v: f'Fp::new(from_str_hex("{v:x}"))'
        o.append(f"#[derive(Clone, Copy, Default, PartialEq, Eq)]\npub struct E{i};")
        o.append(f"impl CurveConfig for E{i} {{ type BaseField = Fp<{f}, {n}>; type ScalarField = Fp<{g}, {s}>; "
                 f"const COFACTOR: &'static [u64] = &[{', '.join(limbs)}]; const COFACTOR_INV: Fp<{g}, {s}> = {hx(pow(h, -1, r))}; }}")
        o.append(f"impl SWCurveConfig for E{i} {{ const COEFF_A: Fp<{f}, {n}> = {hx(a)}; const COEFF_B: Fp<{f}, {n}> = {hx(b)}; "
                 f"const GENERATOR: Affine<Self> = Affine::new_unchecked({hx(x)}, {hx(y)}); }}")
        carms.append(f"        {i} => $go!(crate::params::E{i}, Fp<crate::params::{f}, {n}>, {n}, Fp<crate::params::{g}, {s}>, {s}),")
    o.append("#[macro_export]\nmacro_rules! on_curve { ($id:expr, $go:ident) => { match $id {")
    o += carms + ['        _ => panic!("harness: curve"),', "    } } }"]
    inst = [("bn256::BN256Params", "FpBN256"), ("bls12::BLS2Params", "FpBLS12"), ("bls12::BLS3Params", "FpBLS12"),
            ("bls12::BLS4Params", "FpBLS12"), ("goldilocks::Goldilocks12Params", "FpGoldiLocks"),
            ("babybear::BabyBear24Params", "FpBabyBear"), ("pallas::PallasParams", "FpPallas"), ("vesta::VestaParams", "FpVesta")]
    parms = [f"        {i} => $go!(openzeppelin_crypto::poseidon2::instance::{t}, openzeppelin_crypto::field::instance::{f}),"
             for i, (t, f) in enumerate(inst)]
    for i, (m, n, t, d, c, rf, rp) in enumerate(SPONGES):
        f = f"Fp<{field(m, n)}, {n}>"
        diag, rc = consts(m, t, rf, rp)
        el = lambda v: f'Fp::new(from_str_hex("{v:x}"))'
        o.append(f"pub struct S{i};")
        o.append(f"impl PoseidonParams<{f}> for S{i} {{ const T: usize = {t}; const D: u8 = {d}; const CAPACITY: usize = {c}; "
                 f"const ROUNDS_F: usize = {rf}; const ROUNDS_P: usize = {rp};")
        o.append(f"    const MAT_INTERNAL_DIAG_M_1: &'static [{f}] = &[{', '.join(map(el, diag))}];")
        o.append(f"    const ROUND_CONSTANTS: &'static [&'static [{f}]] = &[")
        for row in rc: o.append(f"        &[{', '.join(map(el, row))}],")
        o.append("    ];\n}")
        parms.append(f"        {i + len(inst)} => $go!(crate::params::S{i}, Fp<crate::params::{seen[(m, n)]}, {n}>),")
    o.append("#[macro_export]\nmacro_rules! on_sponge { ($id:expr, $go:ident) => { match $id {")
    o += parms + ['        _ => panic!("harness: sponge"),', "    } } }"]
    open(os.path.join(ROOT, "crypto-harness/src/params.rs"), "w").write("\n".join(o) + "\n")

def quint():
    L = lambda xs: "[" + ", ".join(map(str, xs)) + "]"
    inst = json.load(open(os.path.join(ROOT, "tools/poseidon_instances.json")))
    o = ["// Generated by tools/gen_params.py: moduli, curves and Poseidon2 constants.", "module cryptodata {",
         f"  pure val ALL_MODS: List[int] = {L(m for m, _ in FIELDS)}",
         f"  pure val ALL_WIDTH: List[int] = {L(n for _, n in FIELDS)}",
         f"  pure val ALL_GENS: List[int] = {L([g for _, _, g, _ in INSTANCES])}",
         f"  pure val ALL_FACTORS: List[List[int]] = {L(L(f) for _, _, _, f in INSTANCES)}",
         "  // p, a, b, order, cofactor, generator, limbs of the two fields",
         f"  pure val ALL_CURVES: List[List[int]] = {L(L(c) for c in CURVES)}"]
    o.append("  pure val ALL_POINTS: List[List[List[int]]] = " + L(L(map(L, points(c))) for c in CURVES))
    heads, diags, rcs = [], [], []
    for x in inst:
        heads.append([x["p"], x["t"], x["d"], x["cap"], x["rf"], x["rp"]]); diags.append(x["diag"]); rcs.append(x["rc"])
    for (m, n, t, d, c, rf, rp) in SPONGES:
        diag, rc = consts(m, t, rf, rp)
        heads.append([m, t, d, c, rf, rp]); diags.append(diag); rcs.append(rc)
    o += ["  // p, t, power, capacity, full rounds, partial rounds", f"  pure val ALL_SPONGES: List[List[int]] = {L(map(L, heads))}"]
    for i, (d, rc) in enumerate(zip(diags, rcs)):
        o.append(f"  pure val DIAG{i}: List[int] = {L(d)}")
        o.append(f"  pure val RC{i}: List[List[int]] = {L(map(L, rc))}")
    o.append(f"  pure val ALL_DIAGS: List[List[int]] = {L(f'DIAG{i}' for i in range(len(heads)))}")
    o.append(f"  pure val ALL_RCS: List[List[List[int]]] = {L(f'RC{i}' for i in range(len(heads)))}")
    o.append("}")
    open(os.path.join(ROOT, "spec/cryptodata.qnt"), "w").write("\n".join(o) + "\n")

if __name__ == "__main__":
    rust(); quint()
