package cesr;

import tlc2.value.impl.*;

/** TLA+ sequence of 0..255  <->  byte[] */
final class Conv {
    private Conv() {}

    static byte[] bytes(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a sequence: " + v);
        byte[] b = new byte[t.elems.length];
        for (int i = 0; i < b.length; i++) {
            int x = ((IntValue) t.elems[i]).val;
            if (x < 0 || x > 255) throw new RuntimeException("not a byte: " + x);
            b[i] = (byte) x;
        }
        return b;
    }

    static Value seq(byte[] b) { return seq(b, 0, b.length); }

    static Value seq(byte[] b, int from, int len) {
        Value[] e = new Value[len];
        for (int i = 0; i < len; i++) e[i] = IntValue.gen(b[from + i] & 255);
        return new TupleValue(e);
    }

    static String str(Value v) { return ((StringValue) v).val.toString(); }

    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
}
