package drv;

import com.google.gson.*;
import com.google.protobuf.*;
import com.google.protobuf.util.*;
import io.envoyproxy.pgv.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Calls the checks of the Java runtime library directly: {c: class, m: method, t: type, ...} -> {r, ...}. */
@SuppressWarnings({"unchecked", "rawtypes"})
public final class LibDriver {
    static Object val(String t, JsonElement x) {
        if (x == null || x.isJsonNull()) return null;
        switch (t) {
            case "int": return x.getAsInt();
            case "long": return Long.parseLong(x.getAsString());
            case "float": return Float.parseFloat(x.getAsString());
            case "double": return Double.parseDouble(x.getAsString());
            case "string": return x.getAsString();
            case "bool": return x.getAsBoolean();
            case "bytes": return ByteString.copyFrom(GenDriver.hex(x.getAsString()));
            case "dur": { String[] p = x.getAsString().split(" "); return Duration.newBuilder().setSeconds(Long.parseLong(p[0])).setNanos(Integer.parseInt(p[1])).build(); }
            case "ts": { String[] p = x.getAsString().split(" "); return Timestamp.newBuilder().setSeconds(Long.parseLong(p[0])).setNanos(Integer.parseInt(p[1])).build(); }
            case "msg": return StringValue.of(x.getAsString());
            default: throw new IllegalArgumentException(t);
        }
    }
    static Comparator cmp(String t) { return t.equals("dur") ? Durations.comparator() : t.equals("ts") ? Timestamps.comparator() : Comparator.naturalOrder(); }
    static Object[] array(String t, JsonArray a) {
        Object[] o = t.equals("int") ? new Integer[a.size()] : t.equals("string") ? new String[a.size()] : new Object[a.size()];
        for (int i = 0; i < a.size(); i++) o[i] = val(t, a.get(i));
        return o;
    }
    static byte[] b(JsonElement x) { return GenDriver.hex(x.getAsString()); }
    static List<Object> list(String t, JsonArray a) { return new ArrayList<>(Arrays.asList(array(t, a))); }
    static final String F = "some.field";
    static List<Object> visited;
    static Object got;      // what was validated, for getValue

    static void call(JsonObject q) throws ValidationException {
        String t = q.has("t") ? q.get("t").getAsString() : "", m = q.get("m").getAsString();
        Object v = q.has("v") && !t.isEmpty() ? val(t, q.get("v")) : null;
        got = v;
        switch (q.get("c").getAsString()) {
            case "cmp": {
                Object l = val(t, q.get("l"));
                switch (m) {
                    case "lessThan": ComparativeValidation.lessThan(F, v, l, cmp(t)); return;
                    case "lessThanOrEqual": ComparativeValidation.lessThanOrEqual(F, v, l, cmp(t)); return;
                    case "greaterThan": ComparativeValidation.greaterThan(F, v, l, cmp(t)); return;
                    case "greaterThanOrEqual": ComparativeValidation.greaterThanOrEqual(F, v, l, cmp(t)); return;
                }
                break;
            }
            case "range": ComparativeValidation.range(F, v, val(t, q.get("lt")), val(t, q.get("lte")), val(t, q.get("gt")), val(t, q.get("gte")), cmp(t)); return;
            case "const": ConstantValidation.constant(F, v, val(t, q.get("l"))); return;
            case "set": if (m.equals("in")) CollectiveValidation.in(F, v, array(t, q.getAsJsonArray("s"))); else CollectiveValidation.notIn(F, v, array(t, q.getAsJsonArray("s"))); return;
            case "str": {
                String s = (String) (v = q.get("v").getAsString()); got = "\"" + s + "\"";
                int n = q.has("n") ? q.get("n").getAsInt() : 0; String p = q.has("p") ? q.get("p").getAsString() : null;
                switch (m) {
                    case "length": StringValidation.length(F, s, n); return;
                    case "minLength": StringValidation.minLength(F, s, n); return;
                    case "maxLength": StringValidation.maxLength(F, s, n); return;
                    case "lenBytes": StringValidation.lenBytes(F, s, n); return;
                    case "minBytes": StringValidation.minBytes(F, s, n); return;
                    case "maxBytes": StringValidation.maxBytes(F, s, n); return;
                    case "prefix": StringValidation.prefix(F, s, p); return;
                    case "suffix": StringValidation.suffix(F, s, p); return;
                    case "contains": StringValidation.contains(F, s, p); return;
                    case "notContains": StringValidation.notContains(F, s, p); return;
                    case "pattern": StringValidation.pattern(F, s, com.google.re2j.Pattern.compile(p)); return;
                    case "email": got = null; StringValidation.email(F, s); return;
                    case "hostname": StringValidation.hostName(F, s); return;
                    case "address": StringValidation.address(F, s); return;
                    case "ip": StringValidation.ip(F, s); return;
                    case "ipv4": StringValidation.ipv4(F, s); return;
                    case "ipv6": StringValidation.ipv6(F, s); return;
                    case "uri": StringValidation.uri(F, s); return;
                    case "uri_ref": StringValidation.uriRef(F, s); return;
                    case "uuid": StringValidation.uuid(F, s); return;
                }
                break;
            }
            case "bytes": {
                ByteString s = ByteString.copyFrom(b(q.get("v"))); got = null;
                int n = q.has("n") ? q.get("n").getAsInt() : 0; byte[] p = q.has("p") ? m.equals("pattern") ? null : b(q.get("p")) : null;
                switch (m) {
                    case "length": BytesValidation.length(F, s, n); return;
                    case "minLength": BytesValidation.minLength(F, s, n); return;
                    case "maxLength": BytesValidation.maxLength(F, s, n); return;
                    case "prefix": BytesValidation.prefix(F, s, p); return;
                    case "suffix": BytesValidation.suffix(F, s, p); return;
                    case "contains": BytesValidation.contains(F, s, p); return;
                    case "ip": BytesValidation.ip(F, s); return;
                    case "ipv4": BytesValidation.ipv4(F, s); return;
                    case "ipv6": BytesValidation.ipv6(F, s); return;
                    case "pattern": BytesValidation.pattern(F, s, com.google.re2j.Pattern.compile(q.get("p").getAsString())); return;
                }
                break;
            }
            case "list": {
                List<Object> l = list(t, q.getAsJsonArray("s")); got = l;
                int n = q.has("n") ? q.get("n").getAsInt() : 0;
                Set<Object> bad = q.has("bad") ? new HashSet<>(list(t, q.getAsJsonArray("bad"))) : null;
                visited = new ArrayList<>();
                switch (m) {
                    case "minItems": RepeatedValidation.minItems(F, l, n); return;
                    case "maxItems": RepeatedValidation.maxItems(F, l, n); return;
                    case "unique": RepeatedValidation.unique(F, l); return;
                    case "forEach": got = null; RepeatedValidation.forEach(l, x -> { visited.add(x); if (bad.contains(x)) throw new ValidationException(F, x, "bad"); }); return;
                    case "validateParts": got = null; MapValidation.validateParts(l, x -> { visited.add(x); if (bad.contains(x)) throw new ValidationException(F, x, "bad"); }); return;
                }
                break;
            }
            case "map": {
                Map<Integer, Integer> mp = new HashMap<>(); for (int i = 0; i < q.get("k").getAsInt(); i++) mp.put(i, i);
                got = mp; int n = q.has("n") ? q.get("n").getAsInt() : 0;
                switch (m) { case "min": MapValidation.min(F, mp, n); return; case "max": MapValidation.max(F, mp, n); return; case "noSparse": got = null; MapValidation.noSparse(F, mp); return; }
                break;
            }
            case "required": { got = null; RequiredValidation.required(F, q.get("set").getAsBoolean() ? StringValue.getDefaultInstance() : null); return; }
            case "enum": { got = null; EnumValidation.definedOnly(F, en.Enums.M.newBuilder().setEValue(q.get("n").getAsInt()).build().getE()); return; }
            case "within": { got = v; TimestampValidation.within(F, (Timestamp) v, (Duration) val("dur", q.get("d")), (Timestamp) val("ts", q.get("w"))); return; }
            case "make": {
                Timestamp ts = TimestampValidation.toTimestamp(q.get("sec").getAsLong(), q.get("nanos").getAsInt());
                Duration d = TimestampValidation.toDuration(q.get("sec").getAsLong(), q.get("nanos").getAsLong());
                if (ts.getSeconds() != q.get("sec").getAsLong() || ts.getNanos() != q.get("nanos").getAsInt()) throw new ValidationException(F, "", "ts");
                if (d.getSeconds() != q.get("sec").getAsLong() || d.getNanos() != q.get("nanos").getAsInt()) throw new ValidationException(F, "", "dur");
                long now = System.currentTimeMillis(), c = Timestamps.toMillis(TimestampValidation.currentTimestamp());
                if (c < now || c > now + 5000) throw new ValidationException(F, "", "clock");
                return;
            }
        }
        throw new IllegalArgumentException("no such check " + q);
    }
    public static void main(String[] a) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new BufferedOutputStream(System.out), false, "UTF-8");
        for (String l; (l = in.readLine()) != null;) {
            if (l.isEmpty()) continue;
            JsonObject q = JsonParser.parseString(l).getAsJsonObject(), r = new JsonObject();
            visited = null;
            try { call(q); r.addProperty("r", "T"); }
            catch (ValidationException e) {
                r.addProperty("r", e instanceof UnimplementedException ? "X" : "F");
                if (!F.equals(e.getField())) r.addProperty("bad", "field " + e.getField());
                else if (e.getReason() == null || e.getReason().isEmpty()) r.addProperty("bad", "no reason");
                else if (!e.getMessage().startsWith(F + ": " + e.getReason())) r.addProperty("bad", "message " + e.getMessage());
                else if (got != null && !got.equals(e.getValue())) r.addProperty("bad", "value " + e.getValue());
            } catch (Throwable e) { r.addProperty("r", "E"); r.addProperty("msg", e.toString()); }
            if (visited != null) r.addProperty("n", visited.size());
            out.println(r);
        }
        out.flush();
    }
}
