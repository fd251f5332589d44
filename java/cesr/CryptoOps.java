package cesr;

import java.util.concurrent.ConcurrentHashMap;
import java.util.Arrays;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Interpretation of the operators that Crypto.tla leaves to the published algorithms. */
public final class CryptoOps {
    private CryptoOps() {}

    private static final ConcurrentHashMap<String, Value> CACHE = new ConcurrentHashMap<>();

    private static String key(String k, byte[]... xs) {
        StringBuilder sb = new StringBuilder(k);
        for (byte[] x : xs) sb.append('/').append(Arrays.toString(x));
        return sb.toString();
    }

    @TLAPlusOperator(identifier = "HashBytes", module = "Crypto", warn = false)
    public static Value digest(Value code, Value ser) { return Conv.seq(Hashes.byCode(Conv.str(code), Conv.bytes(ser))); }

    @TLAPlusOperator(identifier = "SeedOk", module = "Crypto", warn = false)
    public static Value seedOk(Value suite, Value seed) { return Conv.bool(Curves.seedOk(Conv.str(suite), Conv.bytes(seed))); }

    @TLAPlusOperator(identifier = "PublicKey", module = "Crypto", warn = false)
    public static Value pub(Value suite, Value seed) {
        byte[] s = Conv.bytes(seed);
        return CACHE.computeIfAbsent(key("P" + Conv.str(suite), s), k -> Conv.seq(Curves.pub(Conv.str(suite), s)));
    }

    @TLAPlusOperator(identifier = "SigValid", module = "Crypto", warn = false)
    public static Value verify(Value suite, Value pub, Value msg, Value sig) {
        byte[] p = Conv.bytes(pub), m = Conv.bytes(msg), g = Conv.bytes(sig);
        return CACHE.computeIfAbsent(key("V" + Conv.str(suite), p, m, g), k -> Conv.bool(Curves.verify(Conv.str(suite), p, m, g)));
    }

    @TLAPlusOperator(identifier = "Ed25519Sign", module = "Crypto", warn = false)
    public static Value edsign(Value seed, Value msg) { return Conv.seq(Curves.edSign(Conv.bytes(seed), Conv.bytes(msg))); }

    @TLAPlusOperator(identifier = "Argon2id", module = "Crypto", warn = false)
    public static Value argon(Value pwd, Value salt, Value mem, Value passes, Value len) {
        byte[] p = Conv.bytes(pwd), s = Conv.bytes(salt);
        int m = ((IntValue) mem).val, t = ((IntValue) passes).val, n = ((IntValue) len).val;
        return CACHE.computeIfAbsent(key("A" + m + "," + t + "," + n, p, s), k -> Conv.seq(Argon.argon2id(p, s, m, t, n)));
    }
}
