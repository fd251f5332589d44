package cesr;

import tlc2.overrides.ITLCOverrides;

/** Java interpretations of operators of spec/*.tla; registered with -Dtlc2.overrides.TLCOverrides. */
public class Overrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { BytesOps.class, CryptoOps.class, JsonOps.class };
    }
}
