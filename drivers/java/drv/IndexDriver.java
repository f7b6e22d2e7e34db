package drv;

import com.google.gson.*;
import io.envoyproxy.pgv.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;

/** Replays histories of the ValidatorIndexes specification. */
public final class IndexDriver {
    public static void main(String[] a) throws Exception {
        if (a.length > 0 && a[0].equals("race")) { race(Integer.parseInt(a[1])); return; }
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        PrintStream out = new PrintStream(new BufferedOutputStream(System.out), false, "UTF-8");
        for (String l; (l = in.readLine()) != null;) {
            if (l.isEmpty()) continue;
            try { out.println(replay(JsonParser.parseString(l).getAsJsonObject())); }
            catch (Throwable e) {           // an index that throws where none should: an answer, not a broken driver
                JsonObject r = new JsonObject(); r.addProperty("threw", e.toString()); out.println(r);
            }
        }
        out.flush();
    }
    static Object val(String cls, String v) throws Exception {
        fx.Val o = (fx.Val) Fixtures.cls(cls).getDeclaredConstructor().newInstance();
        o.v = v;
        return o;
    }
    static JsonArray replay(JsonObject q) throws Exception {
        JsonArray w = q.getAsJsonArray("world");
        boolean byInstance = q.get("inst").getAsBoolean();
        ValidatorIndex[] ix = new ValidatorIndex[w.size()];
        for (int i = w.size() - 1; i >= 0; i--) {
            JsonObject n = w.get(i).getAsJsonObject();
            String fb = n.get("fb").getAsString();
            boolean e = n.get("kind").getAsString().equals("E");
            ValidatorIndex f = fb.equals("next") ? ix[i + 1] : fb.equals("invalid") ? ValidatorIndex.ALWAYS_INVALID : ValidatorIndex.ALWAYS_VALID;
            ix[i] = fb.equals("none") ? (e ? new ExplicitValidatorIndex() : new ReflectiveValidatorIndex())
                                      : (e ? new ExplicitValidatorIndex(f) : new ReflectiveValidatorIndex(f));
        }
        List<Validator<Object>> handles = new ArrayList<>();
        List<String> hcls = new ArrayList<>();
        JsonArray res = new JsonArray();
        int n = 0;
        for (JsonElement x : q.getAsJsonArray("hist")) {
            JsonObject o = x.getAsJsonObject();
            n++;
            Rec.calls.get().clear(); Rec.thrown.get().clear();
            JsonArray out = new JsonArray();
            String same = "";
            Validator<Object> v = null;
            Object obj = null;
            switch (o.get("op").getAsString()) {
                case "add": {
                    ExplicitValidatorIndex e = (ExplicitValidatorIndex) ix[o.get("ix").getAsInt() - 1];
                    ExplicitValidatorIndex r = e.add((Class) Fixtures.cls(o.get("c").getAsString()), Rec.impl("a" + n, o.get("impl").getAsString()));
                    if (r != e) same = "add does not return the index";
                    break;
                }
                case "look": v = look(ix[o.get("ix").getAsInt() - 1], o.get("c").getAsString(), byInstance); handles.add(v); hcls.add(o.get("c").getAsString()); v = null; break;
                case "val": v = handles.get(o.get("h").getAsInt() - 1); obj = val(hcls.get(o.get("h").getAsInt() - 1), o.get("v").getAsString()); break;
                default: v = look(ix[o.get("ix").getAsInt() - 1], o.get("c").getAsString(), byInstance); obj = val(o.get("c").getAsString(), o.get("v").getAsString());
                    ValidatorIndex li = ix[o.get("ix").getAsInt() - 1];
                    if (li instanceof ReflectiveValidatorIndex && look(li, o.get("c").getAsString(), !byInstance) != v) same = "a repeated lookup gives another validator";
            }
            if (v == null) out.add("done");
            else {
                try { v.assertValid(obj); out.add("ok"); }
                catch (ValidationException e) {
                    String id = e.getField().startsWith("field.") ? e.getField().substring(6) : e.getField();
                    out.add("rej"); out.add(id);
                    if (!id.equals("UNKNOWN") && Rec.thrown.get().get(id) != e) same = "another exception object";
                } catch (Rec.Boom e) { out.add("boom"); out.add(e.getMessage()); if (Rec.thrown.get().get(e.getMessage()) != e) same = "another exception object"; }
                catch (Throwable e) { out.add("threw"); out.add(e.toString()); }
            }
            JsonArray calls = new JsonArray();
            for (Object[] c : Rec.calls.get()) {
                JsonArray p = new JsonArray();
                int k = 0;
                for (int i = 0; i < ix.length; i++) if (ix[i] == c[1]) k = i + 1;
                p.add((String) c[0]); p.add(k); calls.add(p);
            }
            if (v != null && same.isEmpty()) {
                String o2;
                try { o2 = v.isValid(obj) ? "ok" : "rej"; } catch (Rec.Boom e) { o2 = "boom"; } catch (Throwable e) { o2 = "threw"; }
                if (!o2.equals(out.get(0).getAsString())) same = "isValid: " + o2;
            }
            JsonObject r = new JsonObject();
            r.add("out", out); r.add("calls", calls); r.addProperty("same", same);
            res.add(r);
        }
        return res;
    }
    @SuppressWarnings("unchecked")
    static Validator<Object> look(ValidatorIndex ix, String c, boolean byInstance) throws Exception {
        return byInstance ? ix.validatorFor(val(c, "good")) : ix.validatorFor(Fixtures.cls(c));
    }

    /** Two lookups of the same class that overlap in discovery must give the same validator. */
    static void race(int rounds) throws Exception {
        int same = 0, diff = 0, wrong = 0;
        ExecutorService ex = Executors.newFixedThreadPool(4);
        String[] names = {"fx.Plain", "fx.Outer$In", "fx.Outer$In$Deep"};
        for (int r = 0; r < rounds; r++) {
            ReflectiveValidatorIndex ix = new ReflectiveValidatorIndex(ValidatorIndex.ALWAYS_INVALID);
            Class<?> c = Class.forName(names[r % names.length]);
            CyclicBarrier go = new CyclicBarrier(4);
            CountDownLatch both = new CountDownLatch(2);
            Rec.onDiscover = () -> { both.countDown(); try { both.await(15, TimeUnit.MILLISECONDS); } catch (InterruptedException e) { } };
            List<Future<Validator<Object>>> fs = new ArrayList<>();
            for (int t = 0; t < 4; t++) fs.add(ex.submit(() -> { go.await(); return ix.<Object>validatorFor(c); }));
            Set<Object> ids = Collections.newSetFromMap(new IdentityHashMap<>());
            try {
                for (Future<Validator<Object>> f : fs) { ids.add(f.get()); if (f.get().isValid("bad") || !f.get().isValid("good")) wrong++; }
                ids.add(ix.validatorFor(c));
            } catch (RuntimeException | ExecutionException e) { wrong++; }
            if (ids.size() == 1) same++; else diff++;
        }
        ex.shutdown();
        System.out.println("{\"same\":" + same + ",\"diff\":" + diff + ",\"wrong\":" + wrong + "}");
    }
}
