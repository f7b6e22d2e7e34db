package drv;

import io.envoyproxy.pgv.*;
import java.util.*;

/** Stands for generated validators: records every call and judges the value it is given. */
public final class Rec {
    public static final class Boom extends RuntimeException { public Boom(String m) { super(m); } }
    public static final ThreadLocal<List<Object[]>> calls = ThreadLocal.withInitial(ArrayList::new);
    public static final ThreadLocal<Map<String, Exception>> thrown = ThreadLocal.withInitial(HashMap::new);
    /** runs at the start of every validatorFor of the fixtures */
    public static volatile Runnable onDiscover = () -> { };

    public static ValidationException reject(String id) throws ValidationException {
        ValidationException e = new ValidationException("field." + id, "value", "reason " + id);
        thrown.get().put(id, e);
        throw e;
    }
    public static ValidatorImpl<Object> impl(String id, String kind) {
        return (proto, index) -> {
            calls.get().add(new Object[]{id, index});
            switch (kind) {
                case "ok": return;
                case "rej": reject(id); return;
                case "chk": if (proto.toString().equals("bad")) reject(id); return;
                case "boom": { Boom b = new Boom(id); thrown.get().put(id, b); throw b; }
                default: index.validatorFor(Fixtures.cls(kind)).assertValid(proto);
            }
        };
    }
    public static ValidatorImpl<Object> generated(String name) { onDiscover.run(); return impl(name, "chk"); }
}
