package cesr;

import java.io.ByteArrayOutputStream;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;
import util.UniqueString;

/** JParse / JPrint of Doc.tla, and the conversions between doubles and decimal text. */
public final class JsonOps {
    private JsonOps() {}

    private static final UniqueString T = UniqueString.uniqueStringOf("t"), BB = UniqueString.uniqueStringOf("b"),
        N = UniqueString.uniqueStringOf("n"), H = UniqueString.uniqueStringOf("h"), S = UniqueString.uniqueStringOf("s"),
        A = UniqueString.uniqueStringOf("a"), O = UniqueString.uniqueStringOf("o"), K = UniqueString.uniqueStringOf("k"),
        V = UniqueString.uniqueStringOf("v");

    static RecordValue rec(UniqueString[] n, Value... v) {
        RecordValue r = new RecordValue(n, v, false);
        r.normalize();
        return r;
    }
    static Value tagged(String t, UniqueString f, Value v) { return rec(new UniqueString[] { T, f }, new StringValue(t), v); }
    static Value ok(Value v) { return rec(new UniqueString[] { K, V }, new StringValue("ok"), v); }
    static Value err() { return rec(new UniqueString[] { K }, new StringValue("err")); }

    private static final class Fail extends RuntimeException {
        Fail() { super(null, null, false, false); }
    }

    private static final class Reader {
        final byte[] s;
        int i = 0;
        Reader(byte[] s) { this.s = s; }
        int at(int j) { return j < s.length ? s[j] & 255 : 256; }
        void ws() { while (at(i) == 32 || at(i) == 9 || at(i) == 10 || at(i) == 13) i++; }
        void need(boolean b) { if (!b) throw new Fail(); }
        Value word(String w, Value v) {
            for (int j = 0; j < w.length(); j++) need(at(i + j) == w.charAt(j));
            i += w.length();
            return v;
        }
        boolean digit() { return at(i) >= '0' && at(i) <= '9'; }
        Value number() {
            int from = i;
            boolean flt = false;
            if (at(i) == '-') i++;
            need(digit());
            if (at(i) == '0') { i++; need(!digit()); }
            while (digit()) i++;
            if (at(i) == '.') { flt = true; i++; need(digit()); while (digit()) i++; }
            if (at(i) == 'e' || at(i) == 'E') {
                flt = true; i++;
                if (at(i) == '+' || at(i) == '-') i++;
                need(digit());
                while (digit()) i++;
            }
            String t = new String(s, from, i - from, StandardCharsets.US_ASCII);
            if (!flt && !t.equals("-0") && t.length() < 21) {
                BigInteger b = new BigInteger(t);
                if (b.bitLength() <= 63) return tagged("int", N, Conv.seq(s, from, i - from));
            }
            double d = Double.parseDouble(t);
            need(!Double.isInfinite(d));
            return tagged("flt", H, bits(d));
        }
        byte[] string() {
            need(at(i) == '"');
            i++;
            ByteArrayOutputStream o = new ByteArrayOutputStream();
            while (true) {
                int c = at(i);
                if (c == '"') { i++; return o.toByteArray(); }
                need(c != 256 && c >= 32);
                if (c != '\\') { o.write(c); i++; continue; }
                int e = at(i + 1);
                i += 2;
                switch (e) {
                    case '"': case '\\': case '/': o.write(e); break;
                    case 'b': o.write(8); break;
                    case 'f': o.write(12); break;
                    case 'n': o.write(10); break;
                    case 'r': o.write(13); break;
                    case 't': o.write(9); break;
                    case 'u': {
                        int u = hex4();
                        need(!(u >= 0xdc00 && u <= 0xdfff));
                        if (u >= 0xd800 && u <= 0xdbff) {
                            need(at(i) == '\\' && at(i + 1) == 'u');
                            i += 2;
                            int w = hex4();
                            need(w >= 0xdc00 && w <= 0xdfff);
                            u = 0x10000 + ((u - 0xd800) << 10) + (w - 0xdc00);
                        }
                        byte[] b = new String(Character.toChars(u)).getBytes(StandardCharsets.UTF_8);
                        o.write(b, 0, b.length);
                        break;
                    }
                    default: throw new Fail();
                }
            }
        }
        int hex4() {
            int u = 0;
            for (int j = 0; j < 4; j++) {
                int c = at(i + j), d = c < 128 ? Character.digit(c, 16) : -1;
                need(d >= 0);
                u = u * 16 + d;
            }
            i += 4;
            return u;
        }
        Value value(int d) {
            switch (at(i)) {
                case 'n': return word("null", rec(new UniqueString[] { T }, new StringValue("null")));
                case 't': return word("true", tagged("bool", BB, BoolValue.ValTrue));
                case 'f': return word("false", tagged("bool", BB, BoolValue.ValFalse));
                case '"': return tagged("str", S, Conv.seq(string()));
                case '[': {
                    need(d < 127);
                    i++; ws();
                    ArrayList<Value> a = new ArrayList<>();
                    if (at(i) == ']') { i++; return tagged("arr", A, new TupleValue(new Value[0])); }
                    while (true) {
                        a.add(value(d + 1));
                        ws();
                        if (at(i) == ']') { i++; return tagged("arr", A, new TupleValue(a.toArray(new Value[0]))); }
                        need(at(i) == ',');
                        i++; ws();
                    }
                }
                case '{': {
                    need(d < 127);
                    i++; ws();
                    LinkedHashMap<String, Value> m = new LinkedHashMap<>();
                    LinkedHashMap<String, Value> ks = new LinkedHashMap<>();
                    if (at(i) == '}') { i++; return tagged("obj", O, new TupleValue(new Value[0])); }
                    while (true) {
                        byte[] k = string();
                        ws();
                        need(at(i) == ':');
                        i++; ws();
                        Value v = value(d + 1);
                        String ik = new String(k, StandardCharsets.ISO_8859_1);
                        ks.putIfAbsent(ik, Conv.seq(k));
                        m.put(ik, v);
                        ws();
                        if (at(i) == '}') {
                            i++;
                            Value[] o = new Value[m.size()];
                            int n = 0;
                            for (Map.Entry<String, Value> e : m.entrySet())
                                o[n++] = rec(new UniqueString[] { K, V }, ks.get(e.getKey()), e.getValue());
                            return tagged("obj", O, new TupleValue(o));
                        }
                        need(at(i) == ',');
                        i++; ws();
                    }
                }
                default:
                    need(at(i) == '-' || digit());
                    return number();
            }
        }
    }

    @TLAPlusOperator(identifier = "JParse", module = "Doc", warn = false)
    public static Value parse(Value t) {
        if (BytesOps.utf8ok(t) == BoolValue.ValFalse) return err();
        Reader r = new Reader(Conv.bytes(t));
        try {
            r.ws();
            Value v = r.value(0);
            r.ws();
            return r.i == r.s.length ? ok(v) : err();
        } catch (Fail f) {
            return err();
        }
    }

    private static Value field(Value r, UniqueString f) {
        Value v = ((RecordValue) r.toRcd()).apply(new StringValue(f), 0);
        return v;
    }
    private static void quote(ByteArrayOutputStream o, byte[] s) {
        o.write('"');
        for (byte x : s) {
            int c = x & 255;
            switch (c) {
                case '"': o.write('\\'); o.write('"'); break;
                case '\\': o.write('\\'); o.write('\\'); break;
                case 8: o.write('\\'); o.write('b'); break;
                case 12: o.write('\\'); o.write('f'); break;
                case 10: o.write('\\'); o.write('n'); break;
                case 13: o.write('\\'); o.write('r'); break;
                case 9: o.write('\\'); o.write('t'); break;
                default:
                    if (c < 32) { byte[] b = String.format("\\u%04x", c).getBytes(StandardCharsets.US_ASCII); o.write(b, 0, b.length); }
                    else o.write(c);
            }
        }
        o.write('"');
    }
    private static void all(ByteArrayOutputStream o, byte[] b) { o.write(b, 0, b.length); }
    private static void print(ByteArrayOutputStream o, Value v) {
        String t = Conv.str(field(v, T));
        switch (t) {
            case "null": all(o, "null".getBytes()); return;
            case "bool": all(o, (((BoolValue) field(v, BB)).val ? "true" : "false").getBytes()); return;
            case "int": all(o, Conv.bytes(field(v, N))); return;
            case "flt": all(o, text(Conv.bytes(field(v, H)))); return;
            case "str": quote(o, Conv.bytes(field(v, S))); return;
            case "arr": {
                o.write('[');
                Value[] e = ((TupleValue) field(v, A).toTuple()).elems;
                for (int i = 0; i < e.length; i++) { if (i > 0) o.write(','); print(o, e[i]); }
                o.write(']');
                return;
            }
            case "obj": {
                o.write('{');
                Value[] e = ((TupleValue) field(v, O).toTuple()).elems;
                for (int i = 0; i < e.length; i++) {
                    if (i > 0) o.write(',');
                    quote(o, Conv.bytes(field(e[i], K)));
                    o.write(':');
                    print(o, field(e[i], V));
                }
                o.write('}');
                return;
            }
            default: throw new RuntimeException("not a JSON value: " + v);
        }
    }
    @TLAPlusOperator(identifier = "JPrint", module = "Doc", warn = false)
    public static Value print(Value v) {
        ByteArrayOutputStream o = new ByteArrayOutputStream();
        print(o, v);
        return Conv.seq(o.toByteArray());
    }

    static Value bits(double d) {
        long b = Double.doubleToRawLongBits(d);
        byte[] x = new byte[8];
        for (int i = 0; i < 8; i++) x[i] = (byte) (b >>> (56 - 8 * i));
        return Conv.seq(x);
    }
    @TLAPlusOperator(identifier = "DoubleBits", module = "Doc", warn = false)
    public static Value doubleBits(Value t) { return bits(Double.parseDouble(new String(Conv.bytes(t), StandardCharsets.US_ASCII))); }

    @TLAPlusOperator(identifier = "DoubleText", module = "Doc", warn = false)
    public static Value doubleText(Value h) { return Conv.seq(text(Conv.bytes(h))); }

    /** the shortest decimal that reads back as the same double, laid out as serde_json does */
    private static byte[] text(byte[] h) {
        long b = 0;
        for (byte x : h) b = b << 8 | (x & 255);
        double d = Double.longBitsToDouble(b);
        if (Double.isNaN(d) || Double.isInfinite(d)) return "null".getBytes();
        String sign = b < 0 ? "-" : "";
        d = Math.abs(d);
        if (d == 0) return (sign + "0.0").getBytes();
        BigDecimal exact = new BigDecimal(d), s = null;
        for (int p = 1; p <= 17; p++) {
            s = exact.round(new MathContext(p, RoundingMode.HALF_EVEN));
            if (s.doubleValue() == d) break;
        }
        s = s.stripTrailingZeros();
        String ds = s.unscaledValue().toString();
        int k = -s.scale(), kk = ds.length() + k;
        String r;
        if (0 <= k && kk <= 16) r = ds + "0".repeat(k) + ".0";
        else if (0 < kk && kk <= 16) r = ds.substring(0, kk) + "." + ds.substring(kk);
        else if (-5 < kk && kk <= 0) r = "0." + "0".repeat(-kk) + ds;
        else r = ds.charAt(0) + (ds.length() > 1 ? "." + ds.substring(1) : "") + (kk > 0 ? "e+" : "e") + (kk - 1);
        return (sign + r).getBytes(StandardCharsets.US_ASCII);
    }
}
