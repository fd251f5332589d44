package cesr;

import java.nio.ByteBuffer;
import java.nio.charset.*;
import java.util.Base64;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Fast interpretations of the pure operators of Bytes.tla (same functions; MC_Bytes compares them). */
public final class BytesOps {
    private BytesOps() {}

    @TLAPlusOperator(identifier = "B64Enc", module = "Bytes", warn = false)
    public static Value b64enc(Value b) {
        byte[] x = Conv.bytes(b);
        if (x.length % 3 != 0) throw new RuntimeException("B64Enc: length " + x.length);
        return Conv.seq(Base64.getUrlEncoder().withoutPadding().encode(x));
    }

    @TLAPlusOperator(identifier = "B64Dec", module = "Bytes", warn = false)
    public static Value b64dec(Value t) {
        byte[] x = Conv.bytes(t);
        if (x.length % 4 != 0) throw new RuntimeException("B64Dec: length " + x.length);
        return Conv.seq(Base64.getUrlDecoder().decode(x));
    }

    @TLAPlusOperator(identifier = "Utf8Ok", module = "Bytes", warn = false)
    public static Value utf8ok(Value t) {
        CharsetDecoder d = StandardCharsets.UTF_8.newDecoder()
            .onMalformedInput(CodingErrorAction.REPORT).onUnmappableCharacter(CodingErrorAction.REPORT);
        try {
            d.decode(ByteBuffer.wrap(Conv.bytes(t)));
            return BoolValue.ValTrue;
        } catch (CharacterCodingException e) {
            return BoolValue.ValFalse;
        }
    }

    @TLAPlusOperator(identifier = "IsB64", module = "Bytes", warn = false)
    public static Value isB64(Value t) {
        for (byte c : Conv.bytes(t)) {
            boolean ok = c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-' || c == '_';
            if (!ok) return BoolValue.ValFalse;
        }
        return BoolValue.ValTrue;
    }

    @TLAPlusOperator(identifier = "B", module = "Bytes", warn = false)
    public static Value b(Value s) {
        return Conv.seq(Conv.str(s).getBytes(StandardCharsets.US_ASCII));
    }

    @TLAPlusOperator(identifier = "Str", module = "Bytes", warn = false)
    public static Value str(Value t) {
        byte[] x = Conv.bytes(t);
        StringBuilder sb = new StringBuilder();
        for (byte c : x) sb.append(c >= 32 && c <= 126 ? (char) c : '?');
        return new StringValue(sb.toString());
    }
}
