package cesr;

import java.nio.ByteBuffer;
import java.nio.ByteOrder;

/** Argon2id version 1.3, one lane (RFC 9106). */
final class Argon {
    private Argon() {}

    private static byte[] le(int n) { return ByteBuffer.allocate(4).order(ByteOrder.LITTLE_ENDIAN).putInt(n).array(); }

    private static byte[] cat(byte[]... xs) {
        int n = 0;
        for (byte[] x : xs) n += x.length;
        ByteBuffer b = ByteBuffer.allocate(n);
        for (byte[] x : xs) b.put(x);
        return b.array();
    }

    /** variable length hash H' */
    private static byte[] hp(byte[] in, int len) {
        if (len <= 64) return Hashes.blake2b(cat(le(len), in), len);
        byte[] out = new byte[len];
        byte[] v = Hashes.blake2b(cat(le(len), in), 64);
        int off = 0;
        System.arraycopy(v, 0, out, 0, 32);
        off = 32;
        while (len - off > 64) {
            v = Hashes.blake2b(v, 64);
            System.arraycopy(v, 0, out, off, 32);
            off += 32;
        }
        v = Hashes.blake2b(v, len - off);
        System.arraycopy(v, 0, out, off, len - off);
        return out;
    }

    private static long mul(long a, long b) { return a + b + 2 * (a & 0xffffffffL) * (b & 0xffffffffL); }

    private static void g(long[] v, int a, int b, int c, int d) {
        v[a] = mul(v[a], v[b]); v[d] = Long.rotateRight(v[d] ^ v[a], 32);
        v[c] = mul(v[c], v[d]); v[b] = Long.rotateRight(v[b] ^ v[c], 24);
        v[a] = mul(v[a], v[b]); v[d] = Long.rotateRight(v[d] ^ v[a], 16);
        v[c] = mul(v[c], v[d]); v[b] = Long.rotateRight(v[b] ^ v[c], 63);
    }

    private static void p(long[] z, int i0, int i1, int i2, int i3, int i4, int i5, int i6, int i7,
                          int i8, int i9, int ia, int ib, int ic, int id, int ie, int jf) {
        g(z, i0, i4, i8, ic); g(z, i1, i5, i9, id); g(z, i2, i6, ia, ie); g(z, i3, i7, ib, jf);
        g(z, i0, i5, ia, jf); g(z, i1, i6, ib, ic); g(z, i2, i7, i8, id); g(z, i3, i4, i9, ie);
    }

    private static final class Filler {
        final long[] r = new long[128], z = new long[128];

        void fill(long[] x, int xo, long[] y, int yo, long[] out, int oo, boolean xor) {
            for (int i = 0; i < 128; i++) z[i] = r[i] = x[xo + i] ^ y[yo + i];
            for (int i = 0; i < 8; i++) {
                int k = 16 * i;
                p(z, k, k + 1, k + 2, k + 3, k + 4, k + 5, k + 6, k + 7, k + 8, k + 9, k + 10, k + 11, k + 12, k + 13, k + 14, k + 15);
            }
            for (int i = 0; i < 8; i++) {
                int k = 2 * i;
                p(z, k, k + 1, k + 16, k + 17, k + 32, k + 33, k + 48, k + 49, k + 64, k + 65, k + 80, k + 81, k + 96, k + 97, k + 112, k + 113);
            }
            for (int i = 0; i < 128; i++) out[oo + i] = (xor ? out[oo + i] : 0) ^ r[i] ^ z[i];
        }
    }

    static byte[] argon2id(byte[] pwd, byte[] salt, int mem, int passes, int len) {
        int lanes = 1;
        int m = 4 * (mem / 4);
        int seg = m / 4;
        byte[] h0 = Hashes.blake2b(cat(le(lanes), le(len), le(mem), le(passes), le(0x13), le(2),
            le(pwd.length), pwd, le(salt.length), salt, le(0), le(0)), 64);
        long[] mm = new long[m * 128];
        for (int i = 0; i < 2; i++) {
            ByteBuffer b = ByteBuffer.wrap(hp(cat(h0, le(i), le(0)), 1024)).order(ByteOrder.LITTLE_ENDIAN);
            for (int k = 0; k < 128; k++) mm[i * 128 + k] = b.getLong();
        }
        Filler f = new Filler();
        long[] zero = new long[128], in = new long[128], addr = new long[128], tmp = new long[128];
        for (int t = 0; t < passes; t++) {
            for (int s = 0; s < 4; s++) {
                boolean indep = t == 0 && s < 2;
                if (indep) {
                    java.util.Arrays.fill(in, 0);
                    in[0] = t; in[1] = 0; in[2] = s; in[3] = m; in[4] = passes; in[5] = 2;
                }
                for (int i = 0; i < seg; i++) {
                    int j = s * seg + i;
                    if (indep && i % 128 == 0) {
                        in[6]++;
                        f.fill(zero, 0, in, 0, tmp, 0, false);
                        f.fill(zero, 0, tmp, 0, addr, 0, false);
                    }
                    if (t == 0 && j < 2) continue;
                    int prev = j == 0 ? m - 1 : j - 1;
                    long rnd = indep ? addr[i % 128] : mm[prev * 128];
                    long j1 = rnd & 0xffffffffL;
                    int area = t == 0 ? (s == 0 ? i - 1 : s * seg + i - 1) : m - seg + i - 1;
                    long x = (j1 * j1) >>> 32;
                    long y = ((long) area * x) >>> 32;
                    long rel = area - 1 - y;
                    int start = t == 0 ? 0 : (s == 3 ? 0 : (s + 1) * seg);
                    int ref = (int) ((start + rel) % m);
                    f.fill(mm, prev * 128, mm, ref * 128, mm, j * 128, t > 0);
                }
            }
        }
        ByteBuffer b = ByteBuffer.allocate(1024).order(ByteOrder.LITTLE_ENDIAN);
        for (int k = 0; k < 128; k++) b.putLong(mm[(m - 1) * 128 + k]);
        return hp(b.array(), len);
    }
}
