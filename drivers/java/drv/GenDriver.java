package drv;

import com.google.gson.*;
import com.google.protobuf.*;
import io.envoyproxy.pgv.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Runs the generated validators: {m: class, b: hex} -> {r: T|F|X|E, field, msg, mut}. */
public final class GenDriver {
    static byte[] hex(String s) {
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++) b[i] = (byte) Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return b;
    }
    public static void main(String[] a) throws Exception {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new BufferedOutputStream(System.out), false, "UTF-8");
        ReflectiveValidatorIndex ix = new ReflectiveValidatorIndex();
        Map<String, java.lang.reflect.Method> parse = new HashMap<>();
        for (String l; (l = in.readLine()) != null;) {
            if (l.isEmpty()) continue;
            JsonObject q = JsonParser.parseString(l).getAsJsonObject();
            JsonObject r = new JsonObject();
            try {
                java.lang.reflect.Method p = parse.get(q.get("m").getAsString());
                if (p == null) { p = Class.forName(q.get("m").getAsString()).getMethod("parseFrom", byte[].class); parse.put(q.get("m").getAsString(), p); }
                Message m = (Message) p.invoke(null, (Object) hex(q.get("b").getAsString()));
                ByteString before = m.toByteString();
                try { ix.validatorFor(m.getClass()).assertValid(m); r.addProperty("r", "T"); }
                catch (UnimplementedException e) { r.addProperty("r", "X"); r.addProperty("field", e.getField()); r.addProperty("reason", e.getReason()); }
                catch (ValidationException e) { r.addProperty("r", "F"); r.addProperty("field", e.getField()); r.addProperty("reason", e.getReason()); }
                catch (Throwable e) { r.addProperty("r", "E"); r.addProperty("msg", e.toString()); }
                if (!m.toByteString().equals(before)) r.addProperty("mut", true);
            } catch (Throwable e) { r.addProperty("r", "P"); r.addProperty("msg", e.toString()); }
            out.println(r);
        }
        out.flush();
    }
}
