package cesr;

import java.security.MessageDigest;
import java.util.Arrays;

/** BLAKE2b, BLAKE2s, BLAKE3 (own implementations), SHA-2 and SHA-3 (JDK). */
final class Hashes {
    private Hashes() {}

    private static final int[][] SIGMA = {
        {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
        {14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
        {11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
        {7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
        {9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
        {2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
        {12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
        {13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
        {6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
        {10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0},
    };

    // ------------------------------------------------------------- BLAKE2b
    private static final long[] IVB = {
        0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L,
        0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L };

    static byte[] blake2b(byte[] in, int outlen) {
        long[] h = IVB.clone();
        h[0] ^= 0x01010000L ^ outlen;
        int off = 0;
        long t = 0;
        while (in.length - off > 128) {
            t += 128;
            compressB(h, in, off, 128, t, false);
            off += 128;
        }
        t += in.length - off;
        compressB(h, in, off, in.length - off, t, true);
        byte[] out = new byte[outlen];
        for (int i = 0; i < outlen; i++) out[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
        return out;
    }

    private static void compressB(long[] h, byte[] in, int off, int len, long t, boolean last) {
        long[] m = new long[16];
        for (int i = 0; i < len; i++) m[i / 8] |= (in[off + i] & 255L) << (8 * (i % 8));
        long[] v = new long[16];
        System.arraycopy(h, 0, v, 0, 8);
        System.arraycopy(IVB, 0, v, 8, 8);
        v[12] ^= t;
        if (last) v[14] = ~v[14];
        for (int r = 0; r < 12; r++) {
            int[] s = SIGMA[r % 10];
            gb(v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
            gb(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
            gb(v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
            gb(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
            gb(v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
            gb(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
            gb(v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
            gb(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }

    private static void gb(long[] v, int a, int b, int c, int d, long x, long y) {
        v[a] += v[b] + x;
        v[d] = Long.rotateRight(v[d] ^ v[a], 32);
        v[c] += v[d];
        v[b] = Long.rotateRight(v[b] ^ v[c], 24);
        v[a] += v[b] + y;
        v[d] = Long.rotateRight(v[d] ^ v[a], 16);
        v[c] += v[d];
        v[b] = Long.rotateRight(v[b] ^ v[c], 63);
    }

    // ------------------------------------------------------------- BLAKE2s
    private static final int[] IVS = {
        0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19 };

    static byte[] blake2s(byte[] in, int outlen) {
        int[] h = IVS.clone();
        h[0] ^= 0x01010000 ^ outlen;
        int off = 0;
        long t = 0;
        while (in.length - off > 64) {
            t += 64;
            compressS(h, in, off, 64, t, false);
            off += 64;
        }
        t += in.length - off;
        compressS(h, in, off, in.length - off, t, true);
        byte[] out = new byte[outlen];
        for (int i = 0; i < outlen; i++) out[i] = (byte) (h[i / 4] >>> (8 * (i % 4)));
        return out;
    }

    private static void compressS(int[] h, byte[] in, int off, int len, long t, boolean last) {
        int[] m = new int[16];
        for (int i = 0; i < len; i++) m[i / 4] |= (in[off + i] & 255) << (8 * (i % 4));
        int[] v = new int[16];
        System.arraycopy(h, 0, v, 0, 8);
        System.arraycopy(IVS, 0, v, 8, 8);
        v[12] ^= (int) t;
        v[13] ^= (int) (t >>> 32);
        if (last) v[14] = ~v[14];
        for (int r = 0; r < 10; r++) {
            int[] s = SIGMA[r];
            g32(v, 0, 4, 8, 12, m[s[0]], m[s[1]]);
            g32(v, 1, 5, 9, 13, m[s[2]], m[s[3]]);
            g32(v, 2, 6, 10, 14, m[s[4]], m[s[5]]);
            g32(v, 3, 7, 11, 15, m[s[6]], m[s[7]]);
            g32(v, 0, 5, 10, 15, m[s[8]], m[s[9]]);
            g32(v, 1, 6, 11, 12, m[s[10]], m[s[11]]);
            g32(v, 2, 7, 8, 13, m[s[12]], m[s[13]]);
            g32(v, 3, 4, 9, 14, m[s[14]], m[s[15]]);
        }
        for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
    }

    private static void g32(int[] v, int a, int b, int c, int d, int x, int y) {
        v[a] += v[b] + x;
        v[d] = Integer.rotateRight(v[d] ^ v[a], 16);
        v[c] += v[d];
        v[b] = Integer.rotateRight(v[b] ^ v[c], 12);
        v[a] += v[b] + y;
        v[d] = Integer.rotateRight(v[d] ^ v[a], 8);
        v[c] += v[d];
        v[b] = Integer.rotateRight(v[b] ^ v[c], 7);
    }

    // -------------------------------------------------------------- BLAKE3
    private static final int CHUNK_START = 1, CHUNK_END = 2, PARENT = 4, ROOT = 8;
    private static final int[] PERM = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};

    private static int[] compress3(int[] cv, int[] block, long counter, int blen, int flags) {
        int[] v = new int[16];
        System.arraycopy(cv, 0, v, 0, 8);
        System.arraycopy(IVS, 0, v, 8, 4);
        v[12] = (int) counter;
        v[13] = (int) (counter >>> 32);
        v[14] = blen;
        v[15] = flags;
        int[] m = block.clone();
        for (int r = 0; r < 7; r++) {
            g32(v, 0, 4, 8, 12, m[0], m[1]);
            g32(v, 1, 5, 9, 13, m[2], m[3]);
            g32(v, 2, 6, 10, 14, m[4], m[5]);
            g32(v, 3, 7, 11, 15, m[6], m[7]);
            g32(v, 0, 5, 10, 15, m[8], m[9]);
            g32(v, 1, 6, 11, 12, m[10], m[11]);
            g32(v, 2, 7, 8, 13, m[12], m[13]);
            g32(v, 3, 4, 9, 14, m[14], m[15]);
            int[] p = new int[16];
            for (int i = 0; i < 16; i++) p[i] = m[PERM[i]];
            m = p;
        }
        int[] out = new int[16];
        for (int i = 0; i < 8; i++) {
            out[i] = v[i] ^ v[i + 8];
            out[i + 8] = v[i + 8] ^ cv[i];
        }
        return out;
    }

    private record Node(int[] cv, int[] block, long counter, int blen, int flags) {
        int[] chain() { return Arrays.copyOf(compress3(cv, block, counter, blen, flags), 8); }

        byte[] root(int n) {
            byte[] out = new byte[n];
            for (int k = 0; k * 64 < n; k++) {
                int[] w = compress3(cv, block, k, blen, flags | ROOT);
                for (int i = 0; i < 64 && k * 64 + i < n; i++) out[k * 64 + i] = (byte) (w[i / 4] >>> (8 * (i % 4)));
            }
            return out;
        }
    }

    private static int[] words(byte[] in, int off, int len) {
        int[] m = new int[16];
        for (int i = 0; i < len; i++) m[i / 4] |= (in[off + i] & 255) << (8 * (i % 4));
        return m;
    }

    private static Node chunk(byte[] in, int off, int len, long counter) {
        int[] cv = IVS.clone();
        int flags = CHUNK_START;
        while (len > 64) {
            cv = Arrays.copyOf(compress3(cv, words(in, off, 64), counter, 64, flags), 8);
            off += 64;
            len -= 64;
            flags = 0;
        }
        return new Node(cv, words(in, off, len), counter, len, flags | CHUNK_END);
    }

    private static Node tree(byte[] in, int off, int len, long counter) {
        if (len <= 1024) return chunk(in, off, len, counter);
        int left = Integer.highestOneBit((len - 1) / 1024) * 1024;
        int[] l = tree(in, off, left, counter).chain();
        int[] r = tree(in, off + left, len - left, counter + left / 1024).chain();
        int[] b = new int[16];
        System.arraycopy(l, 0, b, 0, 8);
        System.arraycopy(r, 0, b, 8, 8);
        return new Node(IVS.clone(), b, 0, 64, PARENT);
    }

    static byte[] blake3(byte[] in, int outlen) { return tree(in, 0, in.length, 0).root(outlen); }

    static byte[] jdk(String name, byte[] in) {
        try {
            return MessageDigest.getInstance(name).digest(in);
        } catch (java.security.NoSuchAlgorithmException e) {
            throw new RuntimeException(e);
        }
    }

    static byte[] byCode(String code, byte[] in) {
        switch (code) {
            case "E": return blake3(in, 32);
            case "F": return blake2b(in, 32);
            case "G": return blake2s(in, 32);
            case "H": return jdk("SHA3-256", in);
            case "I": return jdk("SHA-256", in);
            case "0D": return blake3(in, 64);
            case "0E": return blake2b(in, 64);
            case "0F": return jdk("SHA3-512", in);
            case "0G": return jdk("SHA-512", in);
            default: throw new RuntimeException("not a digest code: " + code);
        }
    }
}
