package cesr;

import java.math.BigInteger;
import java.util.Arrays;

/** Ed25519 (RFC 8032) and ECDSA over secp256k1 / secp256r1 with SHA-256, from the definitions. */
final class Curves {
    private Curves() {}

    private static BigInteger hex(String s) { return new BigInteger(s.replace(" ", ""), 16); }
    private static final BigInteger ZERO = BigInteger.ZERO, ONE = BigInteger.ONE, TWO = BigInteger.TWO;

    // ------------------------------------------------------------- Ed25519
    private static final BigInteger P = TWO.pow(255).subtract(BigInteger.valueOf(19));
    private static final BigInteger L = TWO.pow(252).add(new BigInteger("27742317777372353535851937790883648493"));
    private static final BigInteger D = BigInteger.valueOf(-121665).multiply(BigInteger.valueOf(121666).modInverse(P)).mod(P);
    private static final BigInteger I = TWO.modPow(P.subtract(ONE).shiftRight(2), P);
    private static final BigInteger[] BASE = base();

    private static BigInteger recoverX(BigInteger y, int sign) {
        if (y.compareTo(P) >= 0) return null;
        BigInteger y2 = y.multiply(y).mod(P);
        BigInteger x2 = y2.subtract(ONE).multiply(D.multiply(y2).add(ONE).modInverse(P)).mod(P);
        if (x2.signum() == 0) return sign == 1 ? null : ZERO;
        BigInteger x = x2.modPow(P.add(BigInteger.valueOf(3)).shiftRight(3), P);
        if (!x.multiply(x).subtract(x2).mod(P).equals(ZERO)) x = x.multiply(I).mod(P);
        if (!x.multiply(x).subtract(x2).mod(P).equals(ZERO)) return null;
        if ((x.testBit(0) ? 1 : 0) != sign) x = P.subtract(x);
        return x;
    }

    private static BigInteger[] base() {
        BigInteger y = BigInteger.valueOf(4).multiply(BigInteger.valueOf(5).modInverse(P)).mod(P);
        BigInteger x = recoverX(y, 0);
        return new BigInteger[] {x, y, ONE, x.multiply(y).mod(P)};
    }

    private static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
        BigInteger a = p[1].subtract(p[0]).multiply(q[1].subtract(q[0])).mod(P);
        BigInteger b = p[1].add(p[0]).multiply(q[1].add(q[0])).mod(P);
        BigInteger c = TWO.multiply(p[3]).multiply(q[3]).multiply(D).mod(P);
        BigInteger d = TWO.multiply(p[2]).multiply(q[2]).mod(P);
        BigInteger e = b.subtract(a), f = d.subtract(c), g = d.add(c), h = b.add(a);
        return new BigInteger[] {e.multiply(f).mod(P), g.multiply(h).mod(P), f.multiply(g).mod(P), e.multiply(h).mod(P)};
    }

    private static BigInteger[] mul(BigInteger k, BigInteger[] p) {
        BigInteger[] r = {ZERO, ONE, ONE, ZERO};
        for (int i = k.bitLength() - 1; i >= 0; i--) {
            r = add(r, r);
            if (k.testBit(i)) r = add(r, p);
        }
        return r;
    }

    private static final BigInteger[][] BASES = bases();
    private static BigInteger[][] bases() {
        BigInteger[][] r = new BigInteger[256][];
        r[0] = BASE;
        for (int i = 1; i < 256; i++) r[i] = add(r[i - 1], r[i - 1]);
        return r;
    }
    private static BigInteger[] mulBase(BigInteger k) {
        BigInteger[] r = {ZERO, ONE, ONE, ZERO};
        for (int i = 0; i < k.bitLength(); i++) if (k.testBit(i)) r = add(r, BASES[i]);
        return r;
    }

    private static BigInteger le(byte[] b, int off, int len) {
        byte[] r = new byte[len + 1];
        for (int i = 0; i < len; i++) r[len - i] = b[off + i];
        return new BigInteger(r);
    }

    private static byte[] le32(BigInteger n) {
        byte[] r = new byte[32];
        for (int i = 0; i < 32; i++) r[i] = n.shiftRight(8 * i).byteValue();
        return r;
    }

    private static byte[] enc(BigInteger[] p) {
        BigInteger z = p[2].modInverse(P);
        BigInteger x = p[0].multiply(z).mod(P), y = p[1].multiply(z).mod(P);
        byte[] r = le32(y);
        if (x.testBit(0)) r[31] |= (byte) 0x80;
        return r;
    }

    private static BigInteger[] dec(byte[] b) {
        int sign = (b[31] & 0x80) >> 7;
        byte[] c = b.clone();
        c[31] &= 0x7f;
        BigInteger y = le(c, 0, 32);
        BigInteger x = recoverX(y, sign);
        return x == null ? null : new BigInteger[] {x, y, ONE, x.multiply(y).mod(P)};
    }

    private static byte[] h512(byte[]... xs) {
        int n = 0;
        for (byte[] x : xs) n += x.length;
        byte[] all = new byte[n];
        n = 0;
        for (byte[] x : xs) { System.arraycopy(x, 0, all, n, x.length); n += x.length; }
        return Hashes.jdk("SHA-512", all);
    }

    private static BigInteger scalar(byte[] h) {
        byte[] a = Arrays.copyOf(h, 32);
        a[0] &= (byte) 248;
        a[31] &= 127;
        a[31] |= 64;
        return le(a, 0, 32);
    }

    static byte[] edPub(byte[] seed) { return enc(mulBase(scalar(Hashes.jdk("SHA-512", seed)))); }

    static byte[] edSign(byte[] seed, byte[] msg) {
        byte[] h = Hashes.jdk("SHA-512", seed);
        BigInteger a = scalar(h);
        byte[] pub = enc(mulBase(a));
        BigInteger r = le(h512(Arrays.copyOfRange(h, 32, 64), msg), 0, 64).mod(L);
        byte[] rr = enc(mulBase(r));
        BigInteger k = le(h512(rr, pub, msg), 0, 64).mod(L);
        byte[] s = le32(r.add(k.multiply(a)).mod(L));
        byte[] sig = Arrays.copyOf(rr, 64);
        System.arraycopy(s, 0, sig, 32, 32);
        return sig;
    }

    static boolean edVerify(byte[] pub, byte[] msg, byte[] sig) {
        if (pub.length != 32 || sig.length != 64) return false;
        BigInteger[] a = dec(pub);
        if (a == null) return false;
        BigInteger s = le(sig, 32, 32);
        if (s.compareTo(L) >= 0) return false;
        byte[] rr = Arrays.copyOf(sig, 32);
        BigInteger k = le(h512(rr, pub, msg), 0, 64).mod(L);
        // R = sB - kA, compared in its encoding
        BigInteger[] na = {P.subtract(a[0]).mod(P), a[1], ONE, P.subtract(a[3]).mod(P)};
        return Arrays.equals(enc(add(mulBase(s), mul(k, na))), rr);
    }

    // --------------------------------------------------------------- ECDSA
    static final class Curve {
        final BigInteger p, a, b, n;
        final BigInteger[] g;
        final boolean lowS;

        Curve(String p, String a, String b, String n, String gx, String gy, boolean lowS) {
            this.p = hex(p); this.a = hex(a); this.b = hex(b); this.n = hex(n);
            this.g = new BigInteger[] {hex(gx), hex(gy)};
            this.lowS = lowS;
        }

        // Jacobian coordinates; null is the point at infinity
        BigInteger[] dbl(BigInteger[] q) {
            if (q == null || q[1].signum() == 0) return null;
            BigInteger yy = q[1].multiply(q[1]).mod(p), zz = q[2].multiply(q[2]).mod(p);
            BigInteger w = q[0].multiply(yy).shiftLeft(2).mod(p);
            BigInteger m = q[0].multiply(q[0]).multiply(BigInteger.valueOf(3)).add(a.multiply(zz).mod(p).multiply(zz)).mod(p);
            BigInteger x = m.multiply(m).subtract(w.shiftLeft(1)).mod(p);
            BigInteger y = m.multiply(w.subtract(x)).subtract(yy.multiply(yy).shiftLeft(3)).mod(p);
            return new BigInteger[] {x, y, q[1].multiply(q[2]).shiftLeft(1).mod(p)};
        }

        BigInteger[] add(BigInteger[] s, BigInteger[] t) {
            if (s == null) return t;
            if (t == null) return s;
            BigInteger z1 = s[2].multiply(s[2]).mod(p), z2 = t[2].multiply(t[2]).mod(p);
            BigInteger u1 = s[0].multiply(z2).mod(p), u2 = t[0].multiply(z1).mod(p);
            BigInteger s1 = s[1].multiply(z2).mod(p).multiply(t[2]).mod(p), s2 = t[1].multiply(z1).mod(p).multiply(s[2]).mod(p);
            if (u1.equals(u2)) return s1.equals(s2) ? dbl(s) : null;
            BigInteger h = u2.subtract(u1), r = s2.subtract(s1);
            BigInteger hh = h.multiply(h).mod(p), hhh = hh.multiply(h).mod(p), v = u1.multiply(hh).mod(p);
            BigInteger x = r.multiply(r).subtract(hhh).subtract(v.shiftLeft(1)).mod(p);
            BigInteger y = r.multiply(v.subtract(x)).subtract(s1.multiply(hhh)).mod(p);
            return new BigInteger[] {x, y, s[2].multiply(t[2]).mod(p).multiply(h).mod(p)};
        }

        BigInteger[] affine(BigInteger[] q) {
            if (q == null) return null;
            BigInteger i = q[2].modInverse(p), ii = i.multiply(i).mod(p);
            return new BigInteger[] {q[0].multiply(ii).mod(p), q[1].multiply(ii).mod(p).multiply(i).mod(p)};
        }

        BigInteger[] mul(BigInteger k, BigInteger[] q) {
            BigInteger[] r = null, j = {q[0], q[1], ONE};
            for (int i = k.bitLength() - 1; i >= 0; i--) {
                r = dbl(r);
                if (k.testBit(i)) r = add(r, j);
            }
            return r;
        }

        BigInteger[][] bases;
        synchronized BigInteger[] mulBase(BigInteger k) {
            if (bases == null) {
                bases = new BigInteger[256][];
                bases[0] = new BigInteger[] {g[0], g[1], ONE};
                for (int i = 1; i < 256; i++) bases[i] = dbl(bases[i - 1]);
            }
            BigInteger[] r = null;
            for (int i = 0; i < k.bitLength(); i++) if (k.testBit(i)) r = add(r, bases[i]);
            return r;
        }

        BigInteger[] dec(byte[] b) {
            if (b.length != 33 || (b[0] != 2 && b[0] != 3)) return null;
            BigInteger x = new BigInteger(1, Arrays.copyOfRange(b, 1, 33));
            if (x.compareTo(p) >= 0) return null;
            BigInteger y2 = x.multiply(x).multiply(x).add(a.multiply(x)).add(this.b).mod(p);
            BigInteger y = y2.modPow(p.add(ONE).shiftRight(2), p);        // p = 3 mod 4
            if (!y.multiply(y).subtract(y2).mod(p).equals(ZERO)) return null;
            if (y.testBit(0) != (b[0] == 3)) y = p.subtract(y);
            return new BigInteger[] {x, y};
        }

        byte[] enc(BigInteger[] q) {
            byte[] r = new byte[33];
            r[0] = (byte) (q[1].testBit(0) ? 3 : 2);
            for (int i = 0; i < 32; i++) r[32 - i] = q[0].shiftRight(8 * i).byteValue();
            return r;
        }

        boolean seedOk(byte[] seed) {
            BigInteger d = new BigInteger(1, seed);
            return seed.length == 32 && d.signum() > 0 && d.compareTo(n) < 0;
        }

        byte[] pub(byte[] seed) { return enc(affine(mulBase(new BigInteger(1, seed)))); }

        boolean verify(byte[] pub, byte[] msg, byte[] sig) {
            BigInteger[] q = dec(pub);
            if (q == null || sig.length != 64) return false;
            BigInteger r = new BigInteger(1, Arrays.copyOf(sig, 32)), s = new BigInteger(1, Arrays.copyOfRange(sig, 32, 64));
            if (r.signum() == 0 || s.signum() == 0 || r.compareTo(n) >= 0 || s.compareTo(n) >= 0) return false;
            if (lowS && s.compareTo(n.shiftRight(1)) > 0) return false;
            BigInteger z = new BigInteger(1, Hashes.jdk("SHA-256", msg));
            BigInteger w = s.modInverse(n);
            BigInteger[] x = affine(add(mulBase(z.multiply(w).mod(n)), mul(r.multiply(w).mod(n), q)));
            return x != null && x[0].mod(n).equals(r);
        }
    }

    static final Curve K1 = new Curve(
        "FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFE FFFFFC2F", "0", "7",
        "FFFFFFFF FFFFFFFF FFFFFFFF FFFFFFFE BAAEDCE6 AF48A03B BFD25E8C D0364141",
        "79BE667E F9DCBBAC 55A06295 CE870B07 029BFCDB 2DCE28D9 59F2815B 16F81798",
        "483ADA77 26A3C465 5DA4FBFC 0E1108A8 FD17B448 A6855419 9C47D08F FB10D4B8", true);
    static final Curve R1 = new Curve(
        "FFFFFFFF 00000001 00000000 00000000 00000000 FFFFFFFF FFFFFFFF FFFFFFFF",
        "FFFFFFFF 00000001 00000000 00000000 00000000 FFFFFFFF FFFFFFFF FFFFFFFC",
        "5AC635D8 AA3A93E7 B3EBBD55 769886BC 651D06B0 CC53B0F6 3BCE3C3E 27D2604B",
        "FFFFFFFF 00000000 FFFFFFFF FFFFFFFF BCE6FAAD A7179E84 F3B9CAC2 FC632551",
        "6B17D1F2 E12C4247 F8BCE6E5 63A440F2 77037D81 2DEB33A0 F4A13945 D898C296",
        "4FE342E2 FE1A7F9B 8EE7EB4A 7C0F9E16 2BCE3357 6B315ECE CBB64068 37BF51F5", false);

    static boolean seedOk(String suite, byte[] seed) {
        switch (suite) {
            case "ed25519": return seed.length == 32;
            case "secp256k1": return K1.seedOk(seed);
            case "secp256r1": return R1.seedOk(seed);
            default: throw new RuntimeException(suite);
        }
    }

    static byte[] pub(String suite, byte[] seed) {
        switch (suite) {
            case "ed25519": return edPub(seed);
            case "secp256k1": return K1.pub(seed);
            case "secp256r1": return R1.pub(seed);
            default: throw new RuntimeException(suite);
        }
    }

    static boolean verify(String suite, byte[] pub, byte[] msg, byte[] sig) {
        switch (suite) {
            case "ed25519": return edVerify(pub, msg, sig);
            case "secp256k1": return K1.verify(pub, msg, sig);
            case "secp256r1": return R1.verify(pub, msg, sig);
            default: throw new RuntimeException(suite);
        }
    }
}
