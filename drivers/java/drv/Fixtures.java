package drv;

import java.util.*;

public final class Fixtures {
    static final Map<String, Class<?>> CLS = new HashMap<>();
    static {
        CLS.put("Plain", fx.Plain.class); CLS.put("Outer", fx.Outer.class); CLS.put("In", fx.Outer.In.class);
        CLS.put("Deep", fx.Outer.In.Deep.class); CLS.put("Orphan", fx.Outer.In.Orphan.class); CLS.put("Alone", fx.Alone.class);
        CLS.put("Odd", fx.Odd.class); CLS.put("Sub", fx.Sub.class); CLS.put("Twin", fx.other.Plain.class);
    }
    public static Class<?> cls(String n) { return Objects.requireNonNull(CLS.get(n), n); }
}
